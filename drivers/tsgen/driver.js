// Driver for generated TypeScript code: lines of message type and hexadecimal bytes come
// in, what the generated code makes of them goes out. registry.json, which tells the
// fields of every message, is written by the checker.
"use strict";
const fs = require("fs");
const path = require("path");

const root = process.argv[2];
const reg = JSON.parse(fs.readFileSync(path.join(root, "registry.json"), "utf8"));
const { Encoder, Decoder } = require("polyglot");
const mods = {};
const load = (m) => (mods[m] ??= require(path.join(root, "out", "src", m)));

const hex = (b) => Buffer.from(b.buffer, b.byteOffset, b.length).toString("hex");
const f32 = (x) => {
  const v = new DataView(new ArrayBuffer(4));
  v.setFloat32(0, x);
  return "f" + v.getUint32(0).toString(16).padStart(8, "0");
};
const f64 = (x) => {
  const v = new DataView(new ArrayBuffer(8));
  v.setFloat64(0, x);
  return "f" + v.getBigUint64(0).toString(16).padStart(16, "0");
};

// want dies when the generated code holds a value of an unexpected type.
function want(v, t) {
  if (typeof v !== t) throw new TypeError(`${typeof v} where a ${t} belongs`);
  return v;
}

function dumpAs(type, v) {
  switch (type) {
    case "bool":
      return String(want(v, "boolean"));
    case "int32": case "sint32": case "uint32": case "sfixed32": case "fixed32": case "enum":
      return String(want(v, "number"));
    case "int64": case "sint64": case "uint64": case "sfixed64": case "fixed64":
      return String(want(v, "bigint"));
    case "float":
      return f32(want(v, "number"));
    case "double":
      return f64(want(v, "number"));
    case "string":
      return "s" + Buffer.from(want(v, "string"), "utf8").toString("hex");
    case "bytes":
      if (!(v instanceof Uint8Array)) throw new TypeError("no bytes");
      return "b" + hex(v);
  }
  return dump(type, v);
}

function dump(label, m) {
  const r = reg[label];
  if (!(m instanceof load(r.file)[r.cls])) throw new TypeError(`no ${r.cls}`);
  return "{" + r.fields.map((f) => {
    const v = m[f.prop];
    switch (f.card) {
      case "list":
        if (!Array.isArray(v)) throw new TypeError("no array");
        return "[" + v.map((x) => dumpAs(f.type, x)).join(",") + "]";
      case "map": {
        if (!(v instanceof Map)) throw new TypeError("no map");
        const es = [...v].map(([k, x]) => dumpAs(f.key, k) + ":" + dumpAs(f.type, x));
        // in the order of their UTF-8 bytes, all are ASCII
        es.sort((a, b) => (a < b ? -1 : a > b ? 1 : 0));
        return "<" + es.join(",") + ">";
      }
    }
    return dumpAs(f.type, v);
  }).join(",") + "}";
}

function decode(label, b) {
  const r = reg[label];
  const d = new Decoder(b);
  const before = d.length;
  const m = load(r.file)[r.cls].decode(d);
  return [m, before - d.length, d.length];
}

function encode(m) {
  const e = new Encoder();
  const back = m.encode(e);
  if (back !== e) throw new TypeError("encode does not return its encoder");
  return hex(e.bytes);
}

// full tells everything about one message: its fields, how it is encoded, by itself, by a
// copy made with the constructor and by a copy made with the setters, and what it consumed.
function full(label, b) {
  const [m, used] = decode(label, b);
  const r = reg[label];
  const d = dump(label, m);
  const e = encode(m);
  const C = load(r.file)[r.cls];
  const values = r.fields.map((f) => m[f.prop]);
  const e2 = encode(new C(...values));
  if (e2 !== e) return `copy\tmade with the constructor\t${e2}`;
  const n = new C(...values.map(() => undefined));
  r.fields.forEach((f, i) => { n[f.prop] = values[i]; });
  const e3 = encode(n);
  if (e3 !== e) return `copy\tmade with the setters\t${e3}`;
  if (dump(label, n) !== d) return `copy\tmade with the setters\t${dump(label, n)}`;
  // another message behind it in the same encoder and decoder
  const two = new Encoder();
  m.encode(two);
  two.boolean(true);
  m.encode(two);
  const dd = new Decoder(two.bytes);
  const p = C.decode(dd);
  if (r.fields.length > 0 && (dd.boolean() !== true || dump(label, C.decode(dd)) !== d || dump(label, p) !== d || dd.length !== 0)) return "copy\tone behind another\t" + hex(two.bytes);
  return `ok\t${d}\t${e}\t${used}`;
}

// stray tells whether an error is not one of the library's.
function stray(e) {
  return !(e instanceof Error) || !/^Invalid\w*Error$/.test(e.constructor.name);
}

Error.stackTraceLimit = 0; // damaged input makes very many errors

let biggest = 0;
for (const name of ["Uint8Array", "ArrayBuffer", "Array"]) {
  const Orig = globalThis[name];
  globalThis[name] = new Proxy(Orig, {
    construct(t, a, n) {
      if (typeof a[0] === "number" && a[0] > biggest) biggest = a[0];
      return Reflect.construct(t, a, n === globalThis[name] ? t : n);
    },
  });
}

function letter(label, b) {
  const copy = Buffer.from(b);
  biggest = 0;
  let l;
  const t0 = Date.now();
  try {
    const [, used, left] = decode(label, b);
    l = left < 0 || used > copy.length ? "B" : "A";
  } catch (e) {
    // O is a stack that overflowed
    l = e instanceof RangeError && /call stack/.test(e.message) ? "O" : stray(e) ? "P" : "e";
  }
  if (biggest > 65536 + 16 * copy.length) l = "M";
  if (Date.now() - t0 > 5000) l = "S";
  if (!copy.equals(b)) l = "C";
  return l;
}

const bytes = (s) => new Uint8Array(Buffer.from(s, "hex"));
const out = [];
function flush() {
  let s = Buffer.from(out.map((l) => l + "\n").join(""));
  out.length = 0;
  while (s.length) {
    try {
      s = s.subarray(fs.writeSync(1, s));
    } catch (e) {
      if (e.code !== "EAGAIN") throw e;
    }
  }
}
for (const line of fs.readFileSync(0, "latin1").split("\n")) {
  if (line === "") continue;
  const f = line.split("\t");
  switch (f[0]) {
    case "m": {
      const b = bytes(f[2]);
      let a;
      try {
        a = full(f[1], b);
      } catch (e) {
        a = `error ${e && e.constructor && e.constructor.name}: ${e && e.message}`.replace(/[\t\n]/g, " ");
      }
      if (hex(b) !== f[2]) a = "changed " + a;
      out.push(a);
      break;
    }
    case "p": {
      const b = bytes(f[2]);
      let s = "";
      for (let n = 0; n < b.length; n++) s += letter(f[1], b.slice(0, n));
      out.push(s);
      break;
    }
    case "i":
      out.push(f.slice(2).map((x) => letter(f[1], bytes(x))).join(""));
      break;
    case "e": // the numbers of all enum constants
      out.push(Object.entries(reg[""]).map(([n, e]) => `${n} [${e.values.map((v) => load(e.file)[e.cls][v]).join(" ")}]`).join(";"));
      break;
    default:
      throw new Error("bad request");
  }
  if (out.length >= 1000) flush();
}
flush();
