// Stand-in for uint8arraylist: a list of byte arrays read as one.
const sym = Symbol.for('@achingbrain/uint8arraylist')
export function isUint8ArrayList(v) {
  return Boolean(v?.[sym])
}
export class Uint8ArrayList {
  constructor(...data) {
    this[sym] = true
    this.bufs = []
    this.length = 0
    this.appendAll(data)
  }
  *[Symbol.iterator]() {
    yield* this.bufs
  }
  get byteLength() {
    return this.length
  }
  append(...bufs) {
    this.appendAll(bufs)
  }
  appendAll(bufs) {
    for (const b of bufs) {
      if (b instanceof Uint8Array) {
        this.bufs.push(b)
        this.length += b.byteLength
      } else if (isUint8ArrayList(b)) {
        this.bufs.push(...b.bufs)
        this.length += b.byteLength
      } else {
        throw new Error('Could not append value, must be an Uint8Array or a Uint8ArrayList')
      }
    }
  }
  prepend(...bufs) {
    const old = this.bufs
    this.bufs = []
    this.length = 0
    this.appendAll([...bufs, ...old])
  }
  get(i) {
    return this.subarray(i, i + 1)[0]
  }
  set(i, v) {
    for (const b of this.bufs) {
      if (i < b.length) {
        b[i] = v
        return
      }
      i -= b.length
    }
    throw new RangeError('index is out of bounds')
  }
  write(buf, offset = 0) {
    for (let i = 0; i < buf.length; i++) this.set(offset + i, buf[i])
  }
  consume(bytes) {
    bytes = Math.trunc(bytes)
    if (Number.isNaN(bytes) || bytes <= 0) return
    if (bytes === this.byteLength) {
      this.bufs = []
      this.length = 0
      return
    }
    while (this.bufs.length > 0) {
      if (bytes >= this.bufs[0].byteLength) {
        bytes -= this.bufs[0].byteLength
        this.length -= this.bufs[0].byteLength
        this.bufs.shift()
      } else {
        this.bufs[0] = this.bufs[0].subarray(bytes)
        this.length -= bytes
        break
      }
    }
  }
  range(beg, end) {
    beg = beg ?? 0
    end = end ?? this.length
    if (beg < 0) beg += this.length
    if (end < 0) end += this.length
    if (beg < 0 || end > this.length) throw new RangeError('index is out of bounds')
    const out = []
    let off = 0
    for (const b of this.bufs) {
      const s = Math.max(beg - off, 0)
      const e = Math.min(end - off, b.length)
      if (s < e) out.push(b.subarray(s, e))
      off += b.length
    }
    return out
  }
  slice(beg, end) {
    const bufs = this.range(beg, end)
    const out = new Uint8Array(bufs.reduce((n, b) => n + b.length, 0))
    let off = 0
    for (const b of bufs) {
      out.set(b, off)
      off += b.length
    }
    return out
  }
  subarray(beg, end) {
    const bufs = this.range(beg, end)
    return bufs.length === 1 ? bufs[0] : this.slice(beg, end)
  }
  sublist(beg, end) {
    const l = new Uint8ArrayList()
    l.appendAll(this.range(beg, end))
    return l
  }
  indexOf(search, offset = 0) {
    const b = this.slice()
    const q = search instanceof Uint8Array ? search : search.slice()
    for (let i = Math.max(0, offset); i + q.length <= b.length; i++) if (q.every((c, k) => b[i + k] === c)) return i
    return -1
  }
  equals(other) {
    if (!isUint8ArrayList(other) || other.bufs.length !== this.bufs.length) return false
    return other.bufs.every((b, i) => b.length === this.bufs[i].length && b.every((c, k) => c === this.bufs[i][k]))
  }
  static fromUint8Arrays(bufs, length) {
    const l = new Uint8ArrayList()
    l.appendAll(bufs)
    return l
  }
}
for (const [t, n] of [['Int8', 1], ['Uint8', 1], ['Int16', 2], ['Uint16', 2], ['Int32', 4], ['Uint32', 4], ['BigInt64', 8], ['BigUint64', 8], ['Float32', 4], ['Float64', 8]]) {
  Uint8ArrayList.prototype['get' + t] = function (off, le) {
    const b = this.slice(off, off + n)
    return new DataView(b.buffer, b.byteOffset, n)['get' + t](0, le)
  }
  Uint8ArrayList.prototype['set' + t] = function (off, v, le) {
    const b = new Uint8Array(n)
    new DataView(b.buffer)['set' + t](0, v, le)
    this.write(b, off)
  }
}
