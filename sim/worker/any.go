package main

// AnyPlan is a run against services other than those of the repository: code
// generated for definitions of ours by the generator of the tree (any_fresh.go).
type AnyPlan struct {
	Calls []AnyCall `json:"calls"`
}

// AnyCall is one call.
type AnyCall struct {
	Meth   string `json:"meth"`
	ID     string `json:"id,omitempty"` // service ID the client is made with
	With   bool   `json:"with,omitempty"`
	AtMs   int    `json:"atMs,omitempty"`
	Reqs   []int  `json:"reqs,omitempty"` // lengths of the requests
	Out    int    `json:"out,omitempty"`  // messages a server stream answers with
	Err    string `json:"err,omitempty"`
	RecvTo bool   `json:"recvTo,omitempty"`
}

// genAny is set if the worker has the generated code.
var genAny func(r *RNG, p *Plan)
