// Package anysvc is filled with code generated by the generator of the tree when the
// worker is built with freshly generated code (tag simfresh).
package anysvc
