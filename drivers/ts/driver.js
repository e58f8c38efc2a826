// Executes encode and decode traces from the model checker against the bundled
// TypeScript implementation. Protocol: see harness/ext.go.
"use strict";
const fs = require("fs");
const P = require(process.argv[2]);
const TIGHT = process.argv[3] === "b";
const MEASURE = process.argv[3] === "m"; // report the buffer memory each request allocates

const ERR = [
  [1, "InvalidArrayError"], [2, "InvalidMapError"], [4, "InvalidUint8ArrayError"],
  [5, "InvalidStringError"], [6, "InvalidErrorError"], [7, "InvalidBooleanError"],
  [8, "InvalidUint8Error"], [9, "InvalidUint16Error"], [10, "InvalidUint32Error"],
  [11, "InvalidUint64Error"], [12, "InvalidInt32Error"], [13, "InvalidInt64Error"],
  [14, "InvalidFloat32Error"], [15, "InvalidFloat64Error"],
].map(([c, n]) => [c, P[n]]);

const errCode = (e) => {
  for (const [c, cls] of ERR) if (e instanceof cls) return c;
  return 0xff;
};

const f32 = new Float32Array(1), f32u = new Uint32Array(f32.buffer);
const f64 = new Float64Array(1), f64u = new BigUint64Array(f64.buffer);
const U = (x) => BigInt.asUintN(64, BigInt(x));

function encodeOne(e, k, a, b, n, d) {
  switch (k) {
    case 0: return e.null();
    case 1: return e.array(Number(n), a);
    case 2: return e.map(Number(n), a, b);
    case 3: return e.any();
    case 4: return e.uint8Array(d);
    case 5: return e.string(Buffer.from(d).toString("utf8"));
    case 6: return e.error(new Error(Buffer.from(d).toString("utf8")));
    case 7: return e.boolean(n !== 0n);
    case 8: return e.uint8(Number(n));
    case 9: return e.uint16(Number(n));
    case 10: return e.uint32(Number(n));
    case 11: return e.uint64(n);
    case 12: return e.int32(Number(BigInt.asIntN(64, n)));
    case 13: return e.int64(BigInt.asIntN(64, n));
    case 14: f32u[0] = Number(n); return e.float32(f32[0]);
    case 15: f64u[0] = n; return e.float64(f64[0]);
    default: throw new Error("driver: op");
  }
}

const NONE = Buffer.alloc(0);
const num = (x) => {
  if (typeof x !== "number" || !Number.isInteger(x)) throw new Error("driver: not an integer: " + String(x));
  return U(x);
};
const big = (x) => {
  if (typeof x !== "bigint") throw new Error("driver: not a bigint: " + String(x));
  return U(x);
};

function request(c, k, a, b) {
  switch (k) {
    case 0: return c.null();
    case 1: return c.array(a);
    case 2: return c.map(a, b);
    case 3: return c.any();
    case 4: return c.uint8Array();
    case 5: return c.string();
    case 6: return c.error();
    case 7: return c.boolean();
    case 8: return c.uint8();
    case 9: return c.uint16();
    case 10: return c.uint32();
    case 11: return c.uint64();
    case 12: return c.int32();
    case 13: return c.int64();
    case 14: return c.float32();
    case 15: return c.float64();
    default: throw new Error("driver: op");
  }
}

// Returns [flag, n, data] for a result.
function canon(x, k) {
  switch (k) {
    case 0: case 3: return x ? [0, 0n, NONE] : [1, 0n, NONE];
    case 4: return [0, 0n, x];
    case 5: return [0, 0n, Buffer.from(x, "utf8")];
    case 6: return [0, 0n, Buffer.from(x.message, "utf8")];
    case 7: return [0, x ? 1n : 0n, NONE];
    case 11: case 13: return [0, big(x), NONE];
    case 14: f32[0] = x; return [0, BigInt(f32u[0]), NONE];
    case 15: f64[0] = x; return [0, f64u[0], NONE];
    default: return [0, num(x), NONE];
  }
}

// Decoded data must stay as it is when the input or other decoded data changes.
// kept: [kind, value, copy of its content].
function sharing(kept, back) {
  const changed = () => kept.some(([k, v, copy]) => !Buffer.from(canon(v, k)[2]).equals(copy));
  back.fill(0xdd);
  if (changed()) return "a decoded value changed when the input was overwritten";
  for (const e of kept) {
    if (e[0] !== 4) continue;
    e[1].fill(0xcc);
    e[2].fill(0xcc);
    if (changed()) return "changing one decoded value changed another";
    if (back.some((x) => x !== 0xdd)) return "changing a decoded value changed the input";
  }
  return null;
}

let out = Buffer.alloc(1 << 20), op = 0;
function need(n) {
  if (op + n > out.length) {
    const o = Buffer.alloc(Math.max(out.length * 2, op + n));
    out.copy(o, 0, 0, op);
    out = o;
  }
}
function putRes(flag, err, n, d, rem, alloc) {
  need(26 + d.length);
  out[op] = flag; out[op + 1] = err;
  out.writeBigUInt64LE(n, op + 2);
  out.writeUInt32LE(d.length, op + 10);
  out.set(d, op + 14);
  op += 14 + d.length;
  out.writeUInt32LE(rem >>> 0, op);
  out.writeBigUInt64LE(BigInt(alloc || 0), op + 4);
  op += 12;
}

function readFull(n) {
  const b = Buffer.alloc(n);
  let p = 0;
  while (p < n) {
    let r;
    try { r = fs.readSync(0, b, p, n - p, null); } catch (e) {
      if (e.code === "EAGAIN") continue;
      if (e.code === "EOF") process.exit(0);
      throw e;
    }
    if (r === 0) process.exit(0);
    p += r;
  }
  return b;
}
function writeFull(b) {
  let p = 0;
  while (p < b.length) {
    try { p += fs.writeSync(1, b, p, b.length - p); } catch (e) {
      if (e.code !== "EAGAIN") throw e;
    }
  }
}

// One encoder and what it still has to write.
class Enc {
  constructor(req, p) { // p: where its description starts
    this.req = req;
    this.bk = req[p];
    this.bn = req.readUInt32LE(p + 1);
    this.left = req.readUInt16LE(p + 9);
    this.p = p + 11;
    this.e = null;
    this.back = null;
    this.fail = null;
    this.taken = null; // [view, copy] of the bytes after each call
  }
  end() { // where its description ends
    let p = this.p;
    for (let i = 0; i < this.left; i++) p += 15 + this.req.readUInt32LE(p + 11);
    return p;
  }
  create() {
    try {
      if (this.bk === 0) this.e = new P.Encoder();
      else if (this.bk === 1) this.e = new P.Encoder(new Uint8Array(this.bn));
      else {
        this.back = new Uint8Array(this.bn + 16).fill(0xee);
        this.e = new P.Encoder(this.back.subarray(7, 7 + this.bn));
      }
    } catch (x) { this.fail = "exception: " + x; }
  }
  step() {
    const req = this.req, p = this.p;
    const k = req[p], a = req[p + 1], b = req[p + 2], n = req.readBigUInt64LE(p + 3), dl = req.readUInt32LE(p + 11);
    this.p = p + 15 + dl;
    this.left--;
    if (this.fail !== null) return;
    const data = new Uint8Array(req.subarray(p + 15, p + 15 + dl));
    try {
      if (encodeOne(this.e, k, a, b, n, data) !== this.e) throw new Error("encoder method did not return the encoder");
      if (this.taken !== null) {
        const v = this.e.bytes;
        this.taken.push([v, Buffer.from(v)]);
      }
    } catch (x) { this.fail = "exception: " + x; }
    data.fill(0xdd); // the caller may reuse its memory at once
  }
  answer() {
    let d;
    if (this.fail === null) {
      try { d = this.e.bytes; } catch (x) { this.fail = "exception: " + x; }
    }
    const bn = this.bn, back = this.back;
    // Writing outside the wrapped view would change the caller's surrounding memory.
    if (this.fail === null && back !== null) for (let i = 0; i < back.length; i++)
      if ((i < 7 || i >= 7 + bn) && back[i] !== 0xee) { this.fail = "wrote outside the wrapped view"; break; }
    if (this.fail === null && this.taken !== null)
      for (const [v, c] of this.taken) if (!c.equals(v)) { this.fail = "bytes taken from the encoder earlier changed"; break; }
    if (this.fail !== null) d = Buffer.from(this.fail);
    need(5 + d.length);
    out[op] = this.fail === null ? 0 : 1;
    out.writeUInt32LE(d.length, op + 1);
    out.set(d, op + 5);
    op += 5 + d.length;
  }
}

// One decoder and what it is still asked for. Results go straight to the answer, so
// only one may be used at a time unless it keeps them (hold).
class Dec {
  constructor(req, p, share) {
    this.req = req;
    const n = req.readUInt32LE(p);
    p += 4;
    const given = req.subarray(p, p + n);
    if (share && share.given.equals(given)) { // the same memory, read by both
      this.back = share.back;
      this.view = share.view;
    } else {
      // The input is a view into a larger buffer, so reads past its end find other bytes.
      // Variant b has nothing around it, so such reads throw.
      const off = TIGHT ? 0 : 13;
      this.back = new Uint8Array(n + (TIGHT ? 0 : 32)).fill(0x01);
      this.back.set(given, off);
      // In variant b it is also a Node.js Buffer, whose methods differ from Uint8Array.
      this.view = TIGHT ? Buffer.from(this.back.buffer, off, n) : this.back.subarray(off, off + n);
    }
    this.given = given;
    p += n;
    this.left = req.readUInt16LE(p);
    this.p = p + 2;
    this.done = 0;
    this.dead = false;
    this.kept = [];
    this.hold = null;
  }
  end() { return this.p + 3 * this.left; }
  create() { this.c = new P.Decoder(this.view); }
  put(...r) {
    this.done++;
    if (this.hold !== null) this.hold.push(r);
    else putRes(...r);
  }
  step() {
    const k = this.req[this.p], a = this.req[this.p + 1], b = this.req[this.p + 2], c = this.c;
    this.p += 3;
    this.left--;
    if (this.dead) return;
    let m0 = 0, m1 = 0;
    try {
      let x;
      if (MEASURE) {
        m0 = process.memoryUsage().arrayBuffers;
        try { x = request(c, k, a, b); } finally { m1 = process.memoryUsage().arrayBuffers; }
      } else x = request(c, k, a, b);
      const [flag, v, d] = canon(x, k);
      if (d.length > 0 && this.kept.length < 64) this.kept.push([k, x, Buffer.from(d)]);
      this.put(flag, 0, v, this.hold !== null ? Buffer.from(d) : d, c.length, Math.max(0, m1 - m0));
    } catch (e) {
      const code = errCode(e);
      if (String(e.message).startsWith("driver:")) {
        this.put(2, 0xff, 0n, Buffer.from(e.message), c.length);
        this.dead = true;
      } else this.put(1, code, 0n, code === 0xff ? Buffer.from(String(e)) : NONE, c.length, Math.max(0, m1 - m0));
    }
  }
  start() {
    need(2);
    this.at = op;
    op += 2;
    if (this.hold !== null) for (const r of this.hold) putRes(...r);
    this.hold = null;
  }
  answer() {
    if (this.hold !== null) this.start();
    if (!this.dead && this.kept.length > 0) {
      const why = sharing(this.kept, this.back);
      if (why !== null) this.put(3, 0xff, 0n, Buffer.from(why), 0);
    }
    out.writeUInt16LE(this.done, this.at);
  }
}

for (;;) {
  const h = readFull(8);
  const req = readFull(h.readUInt32LE(0));
  const count = h.readUInt32LE(4);
  let p = 0;
  op = 4;
  for (let r = 0; r < count; r++) {
    const t = req[p++];
    if (t === 0x49) {
      // Several encoders and decoders; each byte of the order creates one or makes its
      // next call.
      const objs = [];
      let last = null;
      for (let n = req[p++]; n > 0; n--) {
        let o;
        if (req[p] === 0x45) {
          o = new Enc(req, p + 1);
          o.taken = [];
        } else {
          last = o = new Dec(req, p + 1, last);
          o.hold = [];
        }
        objs.push(o);
        p = o.end();
      }
      const n = req.readUInt16LE(p);
      p += 2;
      const made = new Set();
      for (let i = 0; i < n; i++, p++) {
        const o = objs[req[p]];
        if (made.has(o)) { if (o.left > 0) o.step(); } // else the end of its use
        else { made.add(o); o.create(); }
      }
      for (const o of objs) o.answer();
    } else if (t === 0x45) {
      const e = new Enc(req, p);
      e.create();
      while (e.left > 0) e.step();
      e.answer();
      p = e.p;
    } else if (t === 0x44) {
      const d = new Dec(req, p, null);
      d.start();
      d.create();
      while (d.left > 0) d.step();
      d.answer();
      p = d.p;
    } else throw new Error("driver: record");
  }
  out.writeUInt32LE(op - 4, 0);
  writeFull(out.subarray(0, op));
}
