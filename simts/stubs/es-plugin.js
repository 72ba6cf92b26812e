// Stand-in for @aptre/protobuf-es-lite/protoplugin/ecmascript (the part generators use) and
// for the names they take from @aptre/protobuf-es-lite: files of printed text and imports.
export const MethodKind = {}
for (const [i, n] of ['Unary', 'ServerStreaming', 'ClientStreaming', 'BiDiStreaming'].entries()) (MethodKind[n] = i), (MethodKind[i] = n)
export const MethodIdempotency = { NoSideEffects: 1, Idempotent: 2, 1: 'NoSideEffects', 2: 'Idempotent' }
const RUNTIME = '@aptre/protobuf-es-lite'

class Sym {
  constructor(id, from, typeOnly) {
    Object.assign(this, { kind: 'es_symbol', id, from, typeOnly: !!typeOnly })
  }
  toTypeOnly() {
    return new Sym(this.id, this.from, true)
  }
}
export const createImportSymbol = (id, from) => new Sym(id, from)

const RESERVED = new Set('break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with yield'.split(' '))
export function localName(d) {
  if (d.kind === 'rpc') {
    const n = d.name[0].toLowerCase() + d.name.slice(1)
    return RESERVED.has(n) ? n + '$' : n
  }
  return RESERVED.has(d.name) ? d.name + '$' : d.name
}

export class GeneratedFile {
  constructor(name) {
    this.name = name
    this.el = []
    this.syms = new Map()
  }
  preamble() {
    this.el.push('// generated\n')
  }
  jsDoc(d, indent = '') {
    if (typeof d === 'string') d = { comment: d }
    if (d.comment === undefined) return { kind: 'es_jsdoc', text: `${indent}/**\n${indent} * ${d.kind} ${d.typeName ?? d.name}\n${indent} */` }
    const lines = d.comment.replaceAll('*/', '*\\/').split('\n')
    return { kind: 'es_jsdoc', text: `${indent}/**\n${lines.map((l) => `${indent} *${l}`).join('\n')}\n${indent} */` }
  }
  exportDecl(declaration, name) {
    return { kind: 'es_export_stmt', text: `export ${declaration} ${typeof name === 'string' ? name : localName(name)}` }
  }
  string(s) {
    return { kind: 'es_string', text: JSON.stringify(s) }
  }
  import(d, from) {
    return typeof d === 'string' ? new Sym(d, from) : new Sym(localName(d), d.from)
  }
  use(s) {
    const key = s.from + '\0' + s.id
    if (!this.syms.has(key)) {
      const taken = [...this.syms.values()].some((o) => o.name === s.id)
      this.syms.set(key, { s, name: taken ? `${s.id}$${this.syms.size}` : s.id, value: false })
    }
    const e = this.syms.get(key)
    if (!s.typeOnly) e.value = true
    return e.name
  }
  print(...any) {
    if (any.length && Array.isArray(any[0]) && 'raw' in any[0]) {
      const [parts, ...vals] = any
      any = parts.flatMap((p, i) => (i < vals.length ? [p, vals[i]] : [p]))
    }
    for (const p of any.flat(Infinity)) this.el.push(this.one(p))
    this.el.push('\n')
  }
  one(p) {
    if (p === undefined || p === null) throw new Error(`cannot print ${p}`)
    if (typeof p === 'string') return p
    if (typeof p === 'number' || typeof p === 'boolean' || typeof p === 'bigint') return String(p)
    if (p.kind === 'es_symbol') return this.use(p)
    if (p.kind === 'message') return this.use(new Sym(localName(p), p.from))
    if (typeof p.text === 'string') return p.text
    throw new Error('cannot print ' + JSON.stringify(p))
  }
  content() {
    const by = new Map()
    for (const { s, name } of this.syms.values()) by.set(s.from, [...(by.get(s.from) ?? []), s.id === name ? name : `${s.id} as ${name}`])
    const imports = [...by].map(([from, ids]) => `import { ${ids.join(', ')} } from ${JSON.stringify(from)}\n`)
    return this.el[0] + imports.join('') + this.el.slice(1).join('')
  }
}

// schemaOf makes the schema of files [{name, services: [{typeName, name, methods}]}].
export function schemaOf(files) {
  const rt = (id) => new Sym(id, RUNTIME)
  const schema = {
    files,
    out: [],
    runtime: { MethodKind: rt('MethodKind'), MethodIdempotency: rt('MethodIdempotency') },
    generateFile(name) {
      const f = new GeneratedFile(name)
      schema.out.push(f)
      return f
    },
  }
  return schema
}
