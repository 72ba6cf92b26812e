// node build.mjs REPO OUT [fresh]: bundles the simulation worker with the TypeScript
// sources of the repository as they are now; fresh uses code generated by the generator
// of the repository in place of the generated code in the tree. Exit code 3: the
// generator failed, or what it generates does not build. Exit code 4: the generator
// uses something of its library that the stand-in (stubs/es-plugin.js) does not have.
import { createRequire } from 'node:module'
import path from 'node:path'
import { fileURLToPath } from 'node:url'
import { generate } from './gen.mjs'
const [repo, out, mode] = process.argv.slice(2)
const here = path.dirname(fileURLToPath(import.meta.url))
const require = createRequire('/opt/veriftools/node/package.json')
const esbuild = require('esbuild')
const stub = (n) => path.join(here, 'stubs', n)
const alias = {
  'it-pushable': stub('it-pushable.js'),
  'it-pipe': stub('it-pipe.js'),
  'it-first': stub('it-first.js'),
  uint8arraylist: stub('uint8arraylist.js'),
  'event-iterator': stub('event-iterator.js'),
  'it-stream-types': stub('empty.js'),
  '@aptre/protobuf-es-lite': stub('protobuf-es-lite.js'),
  '@chainsafe/libp2p-yamux': stub('libp2p-yamux.js'),
  '@libp2p/interface': stub('libp2p-interface.js'),
  '@libp2p/logger': stub('libp2p-logger.js'),
  '@aptre/it-ws/duplex': stub('it-ws-duplex.js'),
  '@aptre/it-ws/web-socket': stub('empty.js'),
  'isomorphic-ws': stub('empty.js'),
  starpc: path.join(repo, 'index.ts'),
}
const fs = require('node:fs')
const tsOf = (a) => {
  if (a.path.startsWith('.') && a.path.endsWith('.js') && a.importer.endsWith('.ts')) {
    const p = path.resolve(a.resolveDir, a.path.slice(0, -3) + '.ts')
    if (fs.existsSync(p)) return { path: p }
  }
}
let generated = {}
const plugin = {
  name: 'repo',
  setup(b) {
    b.onResolve({ filter: /.*/ }, (a) => {
      if (a.path === '@any') return generated['any/any_srpc.pb.ts'] === undefined ? { path: stub('empty.js') } : { path: path.join(repo, 'any/any_srpc.pb.ts'), namespace: 'gen' }
      if (alias[a.path]) return { path: alias[a.path] }
      let p
      if (a.path.startsWith('@repo/')) p = { path: path.join(repo, a.path.slice(6)) }
      else p = tsOf(a)
      if (p && generated[path.relative(repo, p.path)] !== undefined) p.namespace = 'gen'
      return p
    })
    b.onLoad({ filter: /.*/, namespace: 'gen' }, (a) => ({ contents: generated[path.relative(repo, a.path)], loader: 'ts', resolveDir: path.dirname(a.path) }))
  },
}
const genPlugin = {
  name: 'generator',
  setup(b) {
    b.onResolve({ filter: /.*/ }, (a) => {
      if (a.path.startsWith('@aptre/protobuf-es-lite')) return { path: stub('es-plugin.js') }
      if (a.path.startsWith('@repo/')) return { path: path.join(repo, a.path.slice(6)) }
      return tsOf(a)
    })
  },
}
const fresh = mode === 'fresh'
try {
  if (fresh) generated = await generate(esbuild, repo, genPlugin, out, path.join(here, 'stubs'))
  for (const f of fresh ? ['echo/echo_srpc.pb.ts', 'mock/mock_srpc.pb.ts', 'any/any_srpc.pb.ts'] : []) if (!generated[f]) throw new Error('the generator gives no ' + f)
  await esbuild.build({
    entryPoints: [path.join(here, 'worker.js')],
    bundle: true,
    platform: 'node',
    format: 'esm',
    target: 'es2022',
    outfile: out,
    plugins: [plugin],
    logLevel: 'silent',
    sourcemap: false,
    tsconfigRaw: '{"compilerOptions":{"target":"es2022","useDefineForClassFields":true}}',
  })
} catch (e) {
  console.error(e.message)
  process.exit(!fresh ? 1 : e.unsupported ? 4 : 3)
}
