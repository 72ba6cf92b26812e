// Runs the TypeScript generator of the repository (cmd/protoc-gen-es-starpc) on the
// definitions of the repository and on some of our own.
import fs from 'node:fs'
import path from 'node:path'
import { pathToFileURL } from 'node:url'

const kindOf = (cs, ss) => (cs ? (ss ? 3 : 2) : ss ? 1 : 0)

// parseProto reads the services of a .proto file of the repository.
function parseProto(repo, rel, messages) {
  const text = fs.readFileSync(path.join(repo, rel), 'utf8').replace(/\/\*[^]*?\*\/|\/\/.*$/gm, '')
  const pkg = /^\s*package\s+([\w.]+)\s*;/m.exec(text)?.[1] ?? ''
  const file = { kind: 'file', name: rel.replace(/\.proto$/, ''), services: [] }
  for (const s of text.matchAll(/\bservice\s+(\w+)\s*\{((?:[^{}]|\{[^{}]*\})*)\}/g)) {
    const typeName = (pkg ? pkg + '.' : '') + s[1]
    const svc = { kind: 'service', file, name: s[1], typeName, methods: [] }
    for (const m of s[2].matchAll(/\brpc\s+(\w+)\s*\(\s*(stream\s+)?([\w.]+)\s*\)\s*returns\s*\(\s*(stream\s+)?([\w.]+)\s*\)/g)) {
      const msg = (n) => messages[n.replace(/^\./, '')] ?? messages[(pkg ? pkg + '.' : '') + n]
      svc.methods.push({ kind: 'rpc', parent: svc, name: m[1], methodKind: kindOf(!!m[2], !!m[4]), input: msg(m[3]), output: msg(m[5]), idempotency: undefined })
    }
    file.services.push(svc)
  }
  return file
}

const anyFile = (messages) => {
  const file = { kind: 'file', name: 'any/any', services: [] }
  const svc = (pkg, name, comment, methods) => {
    const s = { kind: 'service', file, name, typeName: (pkg ? pkg + '.' : '') + name, comment, methods: [] }
    for (const [n, cs, ss, i, o, c, idem] of methods) s.methods.push({ kind: 'rpc', parent: s, name: n, methodKind: kindOf(cs, ss), input: messages[i], output: messages[o], comment: c, idempotency: idem })
    file.services.push(s)
  }
  const E = 'echo.EchoMsg'
  const M = 'e2e.mock.MockMsg'
  const R = 'rpcstream.RpcStreamPacket'
  svc('any.v1.deep', 'Alpha', ' Alpha is first.', [
    ['Get', 0, 0, E, M, ' Get has\n\n several lines', 1],
    ['Push', 1, 0, E, M, ' odd // */ comment'],
    ['Pull', 0, 1, M, E, undefined, 2],
    ['Chat', 1, 1, E, M, ''],
  ])
  svc('any.v1.deep', 'Beta_Two', undefined, [
    ['Chat', 1, 1, M, E],
    ['get_it', 0, 0, M, E],
    ['Get', 0, 0, M, M],
    ['pull_2', 0, 1, M, M],
    ['Push', 1, 0, M, E],
  ])
  svc('any.v1.deep', 'Nothing', undefined, [])
  svc('any', 'Delta', undefined, [
    ['Get', 0, 0, R, E],
    ['Push', 1, 0, E, R],
    ['Pull', 0, 1, R, M],
    ['Chat', 1, 1, M, R],
    ['Back', 1, 1, R, E],
    ['Late', 1, 0, R, M],
    ['Soon', 0, 1, E, R],
    ['Take', 0, 0, E, R],
  ])
  svc('', 'Gamma', undefined, [
    ['ping', 0, 0, 'google.protobuf.Empty', 'google.protobuf.Empty'],
    ['Pkts', 1, 1, R, R],
  ])
  return file
}

// generate gives the text of each generated file by its name.
export async function generate(esbuild, repo, plugin, out, stubs) {
  const bundle = out + '.gen.mjs'
  const unsupported = (e) => {
    e.unsupported = true
    throw e
  }
  await esbuild.build({
    stdin: {
      contents: `export { generateTs } from '@repo/cmd/protoc-gen-es-starpc/typescript.ts'\nexport { schemaOf } from ${JSON.stringify(path.join(stubs, 'es-plugin.js'))}`,
      resolveDir: stubs,
    },
    bundle: true,
    platform: 'node',
    format: 'esm',
    target: 'es2022',
    outfile: bundle,
    plugins: [plugin],
    logLevel: 'silent',
    tsconfigRaw: '{}',
  }).catch(unsupported)
  try {
    const { generateTs, schemaOf } = await import(pathToFileURL(bundle))
    const messages = {}
    for (const [n, from] of [
      ['echo.EchoMsg', '@repo/echo/echo.pb.ts'],
      ['e2e.mock.MockMsg', '@repo/mock/mock.pb.ts'],
      ['rpcstream.RpcStreamPacket', '@repo/rpcstream/rpcstream.pb.ts'],
      ['google.protobuf.Empty', '@aptre/protobuf-es-lite'],
    ])
      messages[n] = { kind: 'message', name: n.split('.').pop(), typeName: n, from }
    const schema = schemaOf([parseProto(repo, 'echo/echo.proto', messages), parseProto(repo, 'mock/mock.proto', messages), anyFile(messages)])
    try {
      generateTs(schema)
    } catch (e) {
      if (e instanceof TypeError || /cannot print/.test(e.message)) unsupported(e)
      throw e
    }
    return Object.fromEntries(schema.out.map((f) => [f.name, f.content()]))
  } finally {
    fs.rmSync(bundle, { force: true })
  }
}
