// Stand-in for @aptre/protobuf-es-lite: messages of strings, bytes, bools, messages and oneofs.
export const ScalarType = { DOUBLE: 1, FLOAT: 2, INT64: 3, UINT64: 4, INT32: 5, BOOL: 8, STRING: 9, BYTES: 12, UINT32: 13 }
export const MethodKind = { Unary: 0, ServerStreaming: 1, ClientStreaming: 2, BiDiStreaming: 3 }
export const MethodIdempotency = { NoSideEffects: 1, Idempotent: 2 }
const enc = new TextEncoder()
const dec = new TextDecoder('utf-8', { fatal: true })
const camel = (s) => s.replace(/_([a-z0-9])/g, (_, c) => c.toUpperCase())

function varint(out, n) {
  while (n > 0x7f) {
    out.push((n % 128) | 0x80)
    n = Math.floor(n / 128)
  }
  out.push(n)
}

class Reader {
  constructor(b) {
    this.b = b
    this.i = 0
  }
  varint() {
    let n = 0
    for (let k = 0; k < 10; k++) {
      if (this.i >= this.b.length) throw new RangeError('premature EOF')
      const c = this.b[this.i++]
      if (k < 7) n += (c & 0x7f) * 2 ** (7 * k)
      if (c < 0x80) return n
    }
    throw new Error('invalid varint')
  }
  bytes() {
    const n = this.varint()
    if (this.i + n > this.b.length) throw new RangeError('premature EOF')
    const v = this.b.subarray(this.i, this.i + n)
    this.i += n
    return v
  }
  skip(wt) {
    switch (wt) {
      case 0:
        this.varint()
        break
      case 1:
        this.i += 8
        break
      case 2:
        this.bytes()
        break
      case 5:
        this.i += 4
        break
      default:
        throw new Error('cant skip wire type ' + wt)
    }
    if (this.i > this.b.length) throw new RangeError('premature EOF')
  }
}

export function createMessageType({ typeName, fields }) {
  const fs = fields.map((f) => ({ ...f, local: camel(f.name), one: f.oneof && camel(f.oneof) }))
  const write = (out, f, v, always) => {
    if (f.kind === 'message') {
      if (v == null) return
      const b = f.T().toBinary(v)
      varint(out, f.no * 8 + 2)
      varint(out, b.length)
      for (const c of b) out.push(c)
      return
    }
    if (f.T === ScalarType.BOOL) {
      if (typeof v !== 'boolean' && v != null) throw new Error(`invalid bool for ${typeName}.${f.name}`)
      if (!v && !always) return
      varint(out, f.no * 8)
      out.push(v ? 1 : 0)
      return
    }
    if (v == null) {
      if (!always) return
      v = f.T === ScalarType.STRING ? '' : new Uint8Array(0)
    }
    if (f.T === ScalarType.STRING ? typeof v !== 'string' : !(v instanceof Uint8Array)) throw new Error(`invalid value for ${typeName}.${f.name}`)
    const b = f.T === ScalarType.STRING ? enc.encode(v) : v
    if (b.length === 0 && !always) return
    varint(out, f.no * 8 + 2)
    varint(out, b.length)
    for (const c of b) out.push(c)
  }
  const type = {
    typeName,
    fields,
    create: (p) => ({ ...p }),
    createComplete: (p) => ({ ...p }),
    clone: (p) => structuredClone(p),
    toBinary(m) {
      const out = []
      for (const f of fs) {
        if (f.one) {
          const o = m?.[f.one]
          if (o && o.case === f.local) write(out, f, o.value, true)
        } else {
          write(out, f, m?.[f.local], false)
        }
      }
      return Uint8Array.from(out)
    },
    fromBinary(b) {
      const m = {}
      if (!b) return m
      const r = new Reader(b)
      while (r.i < b.length) {
        const tag = r.varint()
        const no = Math.floor(tag / 8)
        const wt = tag % 8
        if (no === 0) throw new Error(`illegal tag: field no ${no} wire type ${wt}`)
        const f = fs.find((f) => f.no === no)
        const want = f && (f.kind !== 'message' && f.T === ScalarType.BOOL ? 0 : 2)
        if (!f || want !== wt) {
          r.skip(wt)
          continue
        }
        let v
        if (f.kind === 'message') {
          const sub = f.T().fromBinary(r.bytes())
          const old = f.one ? (m[f.one]?.case === f.local ? m[f.one].value : undefined) : m[f.local]
          v = old ? { ...old, ...sub } : sub
        } else if (f.T === ScalarType.BOOL) {
          v = r.varint() !== 0
        } else if (f.T === ScalarType.STRING) {
          v = dec.decode(r.bytes())
        } else {
          v = r.bytes().slice()
        }
        if (f.one) m[f.one] = { case: f.local, value: v }
        else m[f.local] = v
      }
      return m
    },
    equals: (a, b) => JSON.stringify(a) === JSON.stringify(b),
  }
  return type
}
export const Empty = createMessageType({ typeName: 'google.protobuf.Empty', fields: [] })
