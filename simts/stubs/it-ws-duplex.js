// Stand-in for @aptre/it-ws: a duplex over a (simulated) web socket.
import { pushable } from 'it-pushable'
export default function duplex(ws) {
  const source = pushable({ objectMode: true })
  ws.addEventListener('message', (ev) => source.push(new Uint8Array(ev.data)))
  ws.addEventListener('error', (ev) => source.end(ev.error ?? new Error('web socket error')))
  ws.addEventListener('close', () => source.end())
  return {
    source,
    sink: async (src) => {
      for await (const data of src) {
        if (ws.readyState === 0) {
          await new Promise((resolve, reject) => {
            ws.addEventListener('open', resolve)
            ws.addEventListener('error', (ev) => reject(ev.error ?? new Error('web socket error')))
          })
        }
        ws.send(data)
      }
      if (ws.readyState < 2) ws.close()
    },
    socket: ws,
  }
}
