import { bundle, check, Ctx, GenCase, memResolver } from "../lib/core";
import * as fs from "node:fs";
import * as path from "node:path";
import { spawn } from "node:child_process";
import { init } from "repo/index";
import { requestRanges } from "repo/resolver/range-request";

type R = { start: number; end: number; expectedLength?: number };
const SIZE = 12;
const FILE = Uint8Array.from({ length: SIZE }, (_, i) => 0x41 + i);

// ---- building answers ----------------------------------------------------------

const enc = new TextEncoder();

function cat(...bs: (Uint8Array | string)[]): Uint8Array {
  return Buffer.concat(bs.map((b) => (typeof b === "string" ? enc.encode(b) : b)));
}

// body as a stream of chunks, ending normally or with an error
function stream(b: Uint8Array, chunk: number, fail = false): ReadableStream {
  let pos = 0;
  return new ReadableStream({
    pull(ctl) {
      if (pos >= b.length) {
        if (fail) ctl.error(new TypeError("terminated"));
        else ctl.close();
        return;
      }
      ctl.enqueue(new Uint8Array(b.subarray(pos, pos + chunk)));
      pos += chunk;
    },
  });
}

type Part = { start: number; end: number; total: string; data: Uint8Array; header?: string };

function part(f: Uint8Array, r: R): Part {
  const end = Math.min(r.end, f.length - 1);
  return { start: r.start, end, total: String(f.length), data: f.subarray(r.start, end + 1) };
}

type Look = { boundary?: string; quoted?: boolean; lower?: boolean; lead?: string; type?: boolean; epilogue?: string; chunk?: number; extra?: boolean };

function bodyOf(parts: Part[], l: Look): Uint8Array {
  const b = l.boundary ?? "THIS_SEPARATES";
  const out: (Uint8Array | string)[] = [l.lead ?? ""];
  for (const p of parts) {
    out.push(`--${b}\r\n`);
    if (l.type !== false) out.push(`${l.lower ? "content-type" : "Content-Type"}: application/octet-stream\r\n`);
    if (l.extra) out.push("X-Served-By: cache-1: hit: yes\r\n");
    out.push(p.header ?? `${l.lower ? "content-range" : "Content-Range"}: bytes ${p.start}-${p.end}/${p.total}\r\n`);
    out.push("\r\n", p.data, "\r\n");
  }
  out.push(`--${b}--`, l.epilogue ?? "\r\n");
  return cat(...out);
}

function multipart(parts: Part[], l: Look = {}, opts: { cut?: number; fail?: boolean; contentType?: string | null; body?: Uint8Array } = {}): Response {
  let b = opts.body ?? bodyOf(parts, l);
  if (opts.cut !== undefined) b = b.subarray(0, opts.cut);
  const bd = l.boundary ?? "THIS_SEPARATES";
  const ct = opts.contentType !== undefined ? opts.contentType : `multipart/byteranges; boundary=${l.quoted ? `"${bd}"` : bd}`;
  const headers: Record<string, string> = {};
  if (ct !== null) headers["Content-Type"] = ct;
  return new Response(stream(b, l.chunk ?? 1 << 20, opts.fail), { status: 206, headers });
}

function single(f: Uint8Array, r: R, o: { range?: string | null; data?: Uint8Array; type?: string | null; status?: number; fail?: boolean; chunk?: number } = {}): Response {
  const p = part(f, r);
  const headers: Record<string, string> = {};
  if (o.type !== null) headers["Content-Type"] = o.type ?? "application/octet-stream";
  if (o.range !== null) headers["Content-Range"] = o.range ?? `bytes ${p.start}-${p.end}/${p.total}`;
  return new Response(stream(o.data ?? p.data, o.chunk ?? 1 << 20, o.fail), { status: o.status ?? 206, headers });
}

function status(n: number): Response {
  return new Response(n === 204 || n === 304 ? null : "sorry", { status: n, headers: { "Content-Type": "text/plain" } });
}

// a server that answers as RFC 9110 has it when no range can be satisfied
function unsatisfiable(f: Uint8Array): Response {
  return new Response("", { status: 416, headers: { "Content-Range": `bytes */${f.length}` } });
}

function parseRange(init: any, req?: any): R[] {
  const h = new Headers(init?.headers ?? (req && req.headers)).get("Range");
  const m = h === null ? null : /^bytes=((?:\d+-\d+)(?:,\s*\d+-\d+)*)$/.exec(h);
  if (!m) throw new Error(`the client asks with Range: ${h}`);
  return m[1].split(",").map((s) => {
    const [a, b] = s.trim().split("-");
    return { start: Number(a), end: Number(b) };
  });
}

// ---- behaviours of a server -------------------------------------------------------

type Answer = { name: string; ok: boolean; lies?: boolean; make: (rs: R[]) => Response | Error };

function answers(f: Uint8Array, rs: R[]): Answer[] {
  const out: Answer[] = [];
  const able = rs.every((r) => r.start < f.length && r.start <= r.end);
  const sat = rs.filter((r) => r.start < f.length && r.start <= r.end);
  const parts = () => sat.map((r) => part(f, r));
  const add = (name: string, ok: boolean, make: () => Response | Error, lies = false) => out.push({ name, ok: ok && able, lies, make });
  if (sat.length === 0) {
    add("unsatisfiable", false, () => unsatisfiable(f));
    add("empty multipart", false, () => multipart([]));
    add("whole file", false, () => single(f, { start: 0, end: f.length - 1 }));
    return out;
  }
  const looks: [string, Look][] = [
    ["multipart", {}],
    ["multipart lower case", { lower: true, extra: true }],
    ["multipart after line break", { lead: "\r\n" }],
    ["multipart quoted boundary", { quoted: true, boundary: "gc0p4Jq0M2Yt08j34c0p" }],
    ["multipart byte by byte", { chunk: 1 }],
    ["multipart in threes", { chunk: 3, epilogue: "" }],
    ["multipart without types", { type: false }],
    ["multipart with epilogue", { epilogue: "\r\nend\r\n" }],
  ];
  for (const [n, l] of looks) add(n, true, () => multipart(parts(), l));
  add("content type with spaces", true, () => multipart(parts(), {}, { contentType: "multipart/byteranges;  boundary=THIS_SEPARATES ; charset=x" }));
  const one = rs.length === 1;
  add("single part", one, () => single(f, sat[0]));
  add("single part byte by byte", one, () => single(f, sat[0], { chunk: 1 }));
  add("single part of the last range", one, () => single(f, sat[sat.length - 1]));
  // everything else
  add("single part without type", false, () => single(f, sat[0], { type: null }));
  add("single part for all", false, () => single(f, { start: 0, end: f.length - 1 }));
  add("single part without content range", false, () => single(f, sat[0], { range: null }));
  for (const [n, d] of [
    ["one less", f.subarray(sat[0].start, Math.min(sat[0].end, f.length - 1))],
    ["one more", cat(f.subarray(sat[0].start, Math.min(sat[0].end, f.length - 1) + 1), "!")],
    ["nothing", new Uint8Array(0)],
  ] as [string, Uint8Array][])
    add("single part with " + n, false, () => single(f, sat[0], { data: d }));
  const shifted = (r: R, a: number, b: number): R | null => {
    const s = r.start + a,
      e = Math.min(r.end, f.length - 1) + b;
    return s < 0 || e < s || e >= f.length ? null : { start: s, end: e };
  };
  for (const a of [-1, 0, 1])
    for (const b of [-1, 0, 1]) {
      if (a === 0 && b === 0) continue;
      for (let i = 0; i < sat.length; i++) {
        const s = shifted(sat[i], a, b);
        if (!s) continue;
        if (one) add(`single part for ${s.start}-${s.end}`, false, () => single(f, s));
        add(`part ${i} is ${s.start}-${s.end}`, false, () => multipart(parts().map((p, k) => (k === i ? part(f, s) : p))));
        // the right label on other bytes of the same number cannot be told apart; a wrong label with the right bytes can
        add(`part ${i} is labelled ${s.start}-${s.end}`, false, () => multipart(parts().map((p, k) => (k === i ? { ...p, start: s.start, end: s.end } : p))));
      }
    }
  for (let i = 0; i < sat.length; i++) {
    add(`part ${i} missing`, false, () => multipart(parts().filter((_, k) => k !== i)));
    add(`part ${i} twice`, false, () => multipart(parts().flatMap((p, k) => (k === i ? [p, p] : [p]))));
    add(`surplus part before ${i}`, false, () => multipart(parts().flatMap((p, k) => (k === i ? [part(f, { start: 5, end: 6 }), p] : [p]))));
    for (const h of ["", "Content-Range: bytes */12\r\n", "Content-Range: bytes 3/12\r\n", "Content-Range: lines 0-1/12\r\n", "Content-Range: bytes 5-4/12\r\n", "Content-Range\r\n", "Content-Range: bytes -1/12\r\n", "Content-Range: \r\n"])
      add(`part ${i} has ${JSON.stringify(h)}`, false, () => multipart(parts().map((p, k) => (k === i ? { ...p, header: h } : p))));
    add(`part ${i} of unknown total`, false, () => multipart(parts().map((p, k) => (k === i ? { ...p, total: "*" } : p))));
    add(`part ${i} of other total`, false, () => multipart(parts().map((p, k) => (k === i ? { ...p, total: "999" } : p))), true);
    add(`part ${i} short`, false, () => multipart(parts().map((p, k) => (k === i ? { ...p, data: p.data.subarray(0, p.data.length - 1) } : p))));
    add(`part ${i} long`, false, () => multipart(parts().map((p, k) => (k === i ? { ...p, data: cat(p.data, "?") } : p))));
  }
  add("surplus part at the end", false, () => multipart([...parts(), part(f, { start: 5, end: 6 })]));
  add("parts in reverse", false, () => multipart(parts().reverse()));
  add("one part for all", false, () => multipart([part(f, { start: Math.min(...sat.map((r) => r.start)), end: Math.max(...sat.map((r) => r.end)) })]));
  add("wrong boundary", false, () => multipart(parts(), {}, { contentType: "multipart/byteranges; boundary=OTHER" }));
  add("no boundary", false, () => multipart(parts(), {}, { contentType: "multipart/byteranges" }));
  add("empty boundary", false, () => multipart(parts(), {}, { contentType: "multipart/byteranges; boundary=" }));
  add("no content type", false, () => multipart(parts(), {}, { contentType: null }));
  add("multipart of another kind", false, () => multipart(parts(), {}, { contentType: "multipart/mixed; boundary=THIS_SEPARATES" }));
  add("empty multipart", false, () => multipart([]));
  add("no body", false, () => multipart([], {}, { body: new Uint8Array(0) }));
  add("null body", false, () => new Response(null, { status: 206, headers: { "Content-Type": "multipart/byteranges; boundary=THIS_SEPARATES" } }));
  for (const s of [204, 304, 400, 401, 403, 404, 412, 500, 503]) add("status " + s, false, () => status(s));
  add("multipart with status 203", false, () => new Response(bodyOf(parts(), {}), { status: 203, headers: { "Content-Type": "multipart/byteranges; boundary=THIS_SEPARATES" } }));
  add("refused", false, () => unsatisfiable(f));
  add("no answer", false, () => new TypeError("fetch failed"));
  return out;
}

type Single = { name: string; ok: boolean; lies?: boolean; make: (r: R) => Response | Error };

// answers to a request for one range, when several ranges are fetched one by one
function singles(f: Uint8Array): Single[] {
  const wrong = (r: R, a: number, b: number) => {
    const p = part(f, r);
    const s = p.start + a,
      e = p.end + b;
    return s < 0 || e < s || e >= f.length ? unsatisfiable(f) : single(f, { start: s, end: e });
  };
  const able = (g: (r: R) => Response | Error) => (r: R) => (r.start >= f.length || r.end < r.start ? unsatisfiable(f) : g(r));
  return [
    { name: "right", ok: true, make: able((r) => single(f, r)) },
    { name: "byte by byte", ok: true, make: able((r) => single(f, r, { chunk: 1, type: null })) },
    { name: "whole file", ok: false, make: () => single(f, { start: 0, end: f.length - 1 }, { status: 200, range: null }) },
    { name: "whole file with range", ok: false, make: able((r) => single(f, r, { status: 200, data: f })) },
    { name: "whole file as part", ok: false, make: () => single(f, { start: 0, end: f.length - 1 }) },
    { name: "later", ok: false, make: able((r) => wrong(r, 1, 1)) },
    { name: "earlier", ok: false, make: able((r) => wrong(r, -1, -1)) },
    { name: "shorter", ok: false, make: able((r) => wrong(r, 0, -1)) },
    { name: "longer", ok: false, make: able((r) => wrong(r, 0, 1)) },
    { name: "unlabelled", ok: false, make: able((r) => single(f, r, { range: null })) },
    { name: "unknown total", ok: false, make: able((r) => single(f, r, { range: `bytes ${r.start}-${Math.min(r.end, f.length - 1)}/*` })) },
    { name: "other total", ok: false, lies: true, make: able((r) => single(f, r, { range: `bytes ${r.start}-${Math.min(r.end, f.length - 1)}/999` })) },
    { name: "other unit", ok: false, make: able((r) => single(f, r, { range: `lines ${r.start}-${Math.min(r.end, f.length - 1)}/${f.length}` })) },
    { name: "short body", ok: false, make: able((r) => single(f, r, { data: part(f, r).data.subarray(1) })) },
    { name: "long body", ok: false, make: able((r) => single(f, r, { data: cat(part(f, r).data, "x") })) },
    { name: "broken off", ok: false, make: able((r) => single(f, r, { data: part(f, r).data.subarray(1), fail: true })) },
    { name: "broken at end", ok: false, make: able((r) => single(f, r, { fail: true })) },
    { name: "416", ok: false, make: () => unsatisfiable(f) },
    { name: "404", ok: false, make: () => status(404) },
    { name: "500 with the bytes", ok: false, make: able((r) => single(f, r, { status: 500 })) },
    { name: "204", ok: false, make: () => status(204) },
    { name: "no answer", ok: false, make: () => new TypeError("fetch failed") },
  ];
}

// ---- judging ---------------------------------------------------------------------------

function judge(f: Uint8Array, rs: R[], res: any, lies: boolean): string | null {
  if (!Array.isArray(res) || res.length !== rs.length) return `${rs.length} ranges requested, ${res && res.length} returned`;
  for (let i = 0; i < rs.length; i++) {
    const { start, end, expectedLength } = rs[i];
    if (start >= f.length || end < start) return `bytes ${start}-${end} do not exist but are returned`;
    const want = Buffer.from(f.subarray(start, end + 1)).toString("hex");
    const got = Buffer.from(res[i].data).toString("hex");
    if (got !== want) return `bytes ${start}-${end} are returned as ${got}, they are ${want}`;
    if (!lies && res[i].totalLength !== f.length) return `the total length is ${res[i].totalLength}, expected ${f.length}`;
    if (expectedLength !== undefined && expectedLength !== res[i].totalLength) return `a total length of ${res[i].totalLength} is accepted, ${expectedLength} was expected`;
  }
  return null;
}

let server: (rs: R[], n: number) => Response | Error = () => new Error("no server");
let requests = 0;
let asked: string | null = null;

function install() {
  (globalThis as any).fetch = async (url: any, init: any) => {
    let rs: R[];
    try {
      rs = parseRange(init, url);
    } catch (e: any) {
      asked = e.message;
      throw e;
    }
    const r = server(rs, requests++);
    if (r instanceof Error) throw r;
    return r;
  };
}

async function one(c: Ctx, key: string, cs: any, f: Uint8Array, rs: R[], config: any, ok: boolean, lies: boolean) {
  requests = 0;
  asked = null;
  c.tick();
  c.trans();
  let res: any;
  try {
    res = await requestRanges("http://verif.invalid/f", rs.map((r) => ({ ...r })), config);
  } catch (e: any) {
    if (ok) c.violate(key + "-fails", cs, `fails although the server answers properly: ${asked ?? (e && e.message)}`);
    return;
  }
  const bad = judge(f, rs, res, lies);
  if (bad) c.violate(key, cs, bad);
}

// matching expected lengths do not change the outcome, others are reported
const LENGTHS = [undefined, SIZE, SIZE + 1, SIZE - 1];

async function lists(c: Ctx, rs: R[], few: boolean) {
  const valid = rs.every((r) => r.start < SIZE && r.start <= r.end);
  const as = rs.every((r) => r.start <= r.end) ? answers(FILE, rs) : answers(FILE, [{ start: 0, end: 3 }]);
  for (const a of as) {
    for (const len of few ? [undefined, SIZE + 1] : LENGTHS) {
      const q = rs.map((r, i) => (i === rs.length - 1 ? { ...r, expectedLength: len } : r));
      const cs = { ranges: q, answer: a.name };
      server = () => a.make(rs);
      await one(c, "answer", cs, FILE, q, few ? {} : { useMultipartByteRanges: true }, a.ok && valid && (len === undefined || len === SIZE), a.lies ?? false);
    }
    c.state(JSON.stringify([rs, a.name]));
  }
  // an answer refused for several ranges may still come one by one: whole file first
  const ss = singles(FILE);
  const combos: number[][] = [];
  const rec = (pre: number[]) => {
    if (pre.length === rs.length) {
      combos.push(pre);
      return;
    }
    for (let i = 0; i < ss.length; i++) {
      // beyond two ranges only one of them misbehaves
      if (rs.length > 2 && i !== 0 && pre.some((x) => x !== 0)) continue;
      rec([...pre, i]);
    }
  };
  rec([]);
  for (const w of combos) {
    if (few && w.filter((x) => x !== 0).length > 1) continue;
    for (const multi of [true, false])
      for (const len of few ? [undefined] : [undefined, SIZE, SIZE + 1]) {
        const q = rs.map((r, i) => (i === 0 ? { ...r, expectedLength: len } : r));
        const cs = { ranges: q, multi, answers: w.map((k) => ss[k].name) };
        server = (asked, n) => {
          if (multi && n === 0) return single(FILE, { start: 0, end: SIZE - 1 }, { status: 200, range: null });
          if (asked.length !== 1) return status(400);
          // which of the requests is this?
          const i = n - (multi ? 1 : 0);
          const k = rs[i] && rs[i].start === asked[0].start && rs[i].end === asked[0].end ? i : rs.findIndex((r) => r.start === asked[0].start && r.end === asked[0].end);
          return k < 0 ? status(400) : ss[w[k]].make(asked[0]);
        };
        const ok = valid && w.every((k) => ss[k].ok) && (len === undefined || len === SIZE);
        await one(c, "single", cs, FILE, q, { useMultipartByteRanges: multi }, ok, w.some((k) => ss[k].lies));
      }
    c.state(JSON.stringify([rs, w]));
  }
}

// every place at which an answer can break off, with and without an error, for some ways to cut it into chunks
async function cuts(c: Ctx, rs: R[]) {
  const parts = rs.map((r) => part(FILE, r));
  for (const look of [{}, { lower: true, extra: true, boundary: "B" }, { lead: "\r\n", type: false }] as Look[]) {
    const body = bodyOf(parts, look);
    for (let n = 0; n < body.length; n++)
      for (const fail of [false, true])
        for (const chunk of [1, 7, 1 << 20]) {
          server = () => multipart(parts, { ...look, chunk }, { cut: n, fail });
          await one(c, "cut", { ranges: rs, body: Buffer.from(body.subarray(0, n)).toString(), fail, chunk }, FILE, rs, { useMultipartByteRanges: true }, false, false);
        }
    // and every single byte changed
    for (let n = 0; n < body.length; n++)
      for (const x of [0x01, 0x20, 0x80]) {
        const b = body.slice();
        b[n] ^= x;
        server = () => multipart(parts, look, { body: b });
        requests = 0;
        c.trans();
        c.tick();
        try {
          const res = await requestRanges("http://verif.invalid/f", rs.map((r) => ({ ...r })), { useMultipartByteRanges: true });
          // only a changed data byte, a changed total, or a header nobody needs may pass
          for (let i = 0; i < rs.length; i++) {
            const want = FILE.subarray(rs[i].start, rs[i].end + 1);
            const got = new Uint8Array(res[i].data);
            let diff = got.length === want.length ? 0 : 99;
            for (let k = 0; k < want.length && diff < 99; k++) if (want[k] !== got[k] && want[k] !== (got[k] ^ x)) diff += 99;
            if (diff >= 99) c.violate("changed", { ranges: rs, body: Buffer.from(b).toString("latin1") }, `part ${i} is returned as ${Buffer.from(got).toString("hex")}`);
          }
        } catch {}
      }
  }
  c.state("cuts " + JSON.stringify(rs));
}

// ---- large files: offsets and totals of every magnitude -------------------------------

function byteAt(i: number): number {
  return (i % 251) ^ (Math.floor(i / 65536) % 241) ^ (Math.floor(i / 4294967296) % 199);
}

function bytesAt(r: R): Uint8Array {
  const b = new Uint8Array(r.end - r.start + 1);
  for (let i = 0; i < b.length; i++) b[i] = byteAt(r.start + i);
  return b;
}

async function far(c: Ctx) {
  const P31 = 2 ** 31,
    P32 = 2 ** 32;
  const totals = [P31 - 1, P31, P31 + 5, P32 - 1, P32, P32 + 7, 10 ** 9 + 1, 10 ** 10 + 3, 2 ** 40 + 1, 2 ** 52 + 5, Number.MAX_SAFE_INTEGER];
  for (const total of totals) {
    const rs: R[] = [];
    for (const s of [0, 9, 65534, 999999998, 9999999999, P31 - 2, P31, P32 - 2, P32, 2 ** 40, total - 4, total - 1])
      for (const n of s === total - 1 ? [1, 4] : [2, 4]) if (s + n <= total + 3 && s < total && !rs.some((r) => r.start === s && r.end === s + n - 1)) rs.push({ start: s, end: s + n - 1 });
    const label = (r: R, a = 0, b = 0, t = 0) => `bytes ${r.start + a}-${Math.min(r.end, total - 1) + b}/${total + t}`;
    const cutTo = (r: R) => ({ start: r.start, end: Math.min(r.end, total - 1) });
    const mk = (r: R, l: string) => new Response(bytesAt(cutTo(r)), { status: 206, headers: { "Content-Range": l, "Content-Type": "text/plain" } });
    const lists: R[][] = rs.map((r) => [r]);
    rs.forEach((a, i) => rs.forEach((b, j) => (c.thorough || (i * 5 + j) % 9 === 0) && lists.push([a, b])));
    const one = async (key: string, cs: any, q: R[], config: any, ok: boolean) => {
      c.tick();
      c.trans();
      c.at("far " + JSON.stringify(cs));
      let res: any;
      try {
        res = await requestRanges("http://verif.invalid/f", q, config);
      } catch (e: any) {
        if (ok) c.violate(key + "-fails", cs, `fails although the server answers properly: ${e && e.message}`);
        return;
      }
      if (!ok) return c.violate(key, cs, "an improper answer is accepted");
      for (let i = 0; i < q.length; i++) {
        const want = Buffer.from(bytesAt(cutTo(q[i]))).toString("hex"),
          got = res[i] && Buffer.from(res[i].data).toString("hex");
        if (want !== got || res[i].totalLength !== total) c.violate(key, cs, `range ${i} gives ${got} of ${res[i] && res[i].totalLength} bytes, expected ${want} of ${total}`);
      }
    };
    for (const q of lists) {
      if (!c.mine()) continue;
      if (c.tooMany() || c.expired("far")) return;
      for (const config of [{ useMultipartByteRanges: true }, { useMultipartByteRanges: false }]) {
        const multi = config.useMultipartByteRanges;
        const bad: [string, number, number, number][] = [["", 0, 0, 0]];
        for (const d of c.thorough ? [P31, -P31, P32, -P32, 2 * P32] : [P31, -P31, P32, -P32]) bad.push([`labels moved by ${d}`, d, d, 0], [`starts moved by ${d}`, d, 0, 0], [`ends moved by ${d}`, 0, d, 0]);
        for (const [name, a, b, t] of bad) {
          if (q.some((r) => r.start + a < 0 || Math.min(r.end, total - 1) + b < 0)) continue;
          (globalThis as any).fetch = async (url: any, init: any) => {
            const as = parseRange(init, url);
            if (as.length === 1 && (!multi || q.length === 1)) return mk(as[0], label(as[0], a, b, t));
            return multipart(as.map((r) => ({ start: 0, end: 0, total: "", data: bytesAt(cutTo(r)), header: `Content-Range: ${label(r, a, b, t)}\r\n` })));
          };
          // the last byte of the file may be asked for together with bytes behind it
          await one("far", { total, ranges: q, multi, name }, q.map((r) => ({ ...r })), config, name === "");
          if (name === "") {
            for (const d of [0, 1, -1, P32, -P32, P31]) await one("far-expected", { total, ranges: q, multi, expected: total + d }, q.map((r) => ({ ...r, expectedLength: total + d })), config, d === 0 || total + d === 0);
          }
        }
      }
      c.state("far " + total + JSON.stringify(q));
    }
    c.trace();
  }
  install();
}

// ---- many ranges, and answers to individual requests arriving in every order ----------

async function many(c: Ctx) {
  const f = Uint8Array.from({ length: 5000 }, (_, i) => byteAt(i * 7 + 3));
  const ns = [3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 500];
  const shapes: [string, (i: number, n: number) => R][] = [
    ["bytes", (i) => ({ start: i, end: i })],
    ["descending", (i, n) => ({ start: 8 * (n - i), end: 8 * (n - i) + 6 })],
    ["overlapping", (i) => ({ start: 3 * i, end: 3 * i + 20 })],
    ["equal", () => ({ start: 10, end: 19 })],
    ["to the end", (i, n) => ({ start: 4999 - (i % n), end: 5000 })],
    ["adjacent", (i) => ({ start: i * 9, end: i * 9 + 8 })],
  ];
  for (const n of ns)
    for (const [shape, g] of shapes) {
      if (!c.mine()) continue;
      if (c.tooMany() || c.expired("many")) return;
      const rs = Array.from({ length: n }, (_, i) => g(i, n));
      c.at(`many ${n} ${shape}`);
      for (const chunk of [64, 1000, 1 << 20]) {
        server = (q) => multipart(q.map((r) => part(f, r)), { chunk });
        await one(c, "many", { ranges: n, shape, chunk }, f, rs, { useMultipartByteRanges: true }, true, false);
        server = (q) => multipart(q.slice(0, -1).map((r) => part(f, r)), { chunk });
        await one(c, "many-less", { ranges: n, shape, chunk }, f, rs, { useMultipartByteRanges: true }, false, false);
      }
      for (const multi of [true, false]) {
        server = (q) => (q.length > 1 ? single(f, { start: 0, end: f.length - 1 }, { status: 200, range: null }) : single(f, q[0]));
        await one(c, "many-single", { ranges: n, shape, multi }, f, rs, { useMultipartByteRanges: multi }, true, false);
        // the answer to one of them belongs to another range
        const at = n >> 1;
        let k = 0;
        server = (q) => (q.length > 1 ? single(f, { start: 0, end: f.length - 1 }, { status: 200, range: null }) : k++ === at ? single(f, { start: 4000, end: 4000 + q[0].end - q[0].start }) : single(f, q[0]));
        await one(c, "many-single", { ranges: n, shape, multi, wrong: at }, f, rs, { useMultipartByteRanges: multi }, false, false);
      }
      c.state(`many ${n} ${shape}`);
    }
  // orders of answers
  const perms = (n: number): number[][] => (n === 0 ? [[]] : perms(n - 1).flatMap((p) => Array.from({ length: n }, (_, i) => [...p.slice(0, i), n - 1, ...p.slice(i)])));
  const sets: R[][] = [];
  for (const [, g] of shapes) for (let n = 2; n <= c.bound(4, 5); n++) sets.push(Array.from({ length: n }, (_, i) => g(i, n)));
  for (const rs of sets)
    for (const p of perms(rs.length))
      for (const failing of [-1, ...rs.keys()])
        for (const multi of [true, false]) {
          if (!c.mine()) continue;
          const waiting: (() => void)[] = [];
          (globalThis as any).fetch = (url: any, init: any) => {
            const q = parseRange(init, url);
            if (q.length > 1) return Promise.resolve(single(f, { start: 0, end: f.length - 1 }, { status: 200, range: null }));
            return new Promise((ok, no) => {
              const k = waiting.length;
              waiting.push(() => (k === failing ? no(new TypeError("fetch failed")) : ok(single(f, q[0]))));
              if (waiting.length === rs.length) for (const i of p) setTimeout(waiting[i], 0);
            });
          };
          const cs = { ranges: rs, answers: p, failing, multi };
          c.at("orders " + JSON.stringify(cs));
          await one(c, "orders", cs, f, rs, { useMultipartByteRanges: multi }, failing < 0, false);
          c.state("orders " + JSON.stringify(cs));
        }
  install();
  c.trace();
}

// ---- the whole client over a server ----------------------------------------------------

async function results(db: any, cs: any, c: Ctx): Promise<string | null> {
  const out: string[] = [];
  const qs = [
    { where: [{ key: "f", operation: ">=", value: 2 }] },
    { where: [{ key: "s", operation: "<=", value: "y" }], orderBy: [{ key: "s", direction: "DESC" }] },
    { where: [{ key: "s", operation: "==", value: "v0300" }] },
    { where: [{ key: "f", operation: "<", value: 600 }], orderBy: [{ key: "f", direction: "DESC" }], limit: 3 },
  ];
  try {
    out.push(JSON.stringify(await db.fields()));
    for (const q of qs) {
      c.trans();
      const rows: any[] = [];
      for await (const r of db.query(q)) {
        rows.push(r);
        if (rows.length > 12) break;
      }
      out.push(JSON.stringify(rows));
    }
    const rows: any[] = [];
    for await (const r of db.search("t", "ab")) {
      rows.push(r);
      if (rows.length > 5) break;
    }
    out.push(JSON.stringify(rows.map((r) => r.score.toFixed(6))));
    return out.join("\n");
  } catch (e: any) {
    c.violate("client", cs, `fails: ${e && e.message}`, e && e.stack);
    return null;
  }
}

async function client(c: Ctx, g: GenCase) {
  if (g.kind === "fields" || g.error) return;
  const files: Record<string, Uint8Array> = { data: new Uint8Array(g.data), index: new Uint8Array(g.index) };
  const want = await results(await init(memResolver(g.data), memResolver(g.index)), { data: g.name, direct: true }, c);
  const modes: [string, (f: Uint8Array, rs: R[]) => Response, any][] = [];
  const looks: Look[] = [{}, { lower: true, lead: "\r\n", type: false }, { chunk: 13, quoted: true }];
  for (const l of looks) modes.push([`multipart ${JSON.stringify(l)}`, (f, rs) => (rs.length === 1 ? single(f, rs[0]) : multipart(rs.map((r) => part(f, r)), l)), { useMultipartByteRanges: true }]);
  modes.push(["always multipart", (f, rs) => multipart(rs.map((r) => part(f, r)), { chunk: 4096 }), undefined]);
  modes.push(["one by one", (f, rs) => (rs.length === 1 ? single(f, rs[0]) : status(400)), { useMultipartByteRanges: false }]);
  modes.push(["whole file for several", (f, rs) => (rs.length === 1 ? single(f, rs[0]) : single(f, { start: 0, end: f.length - 1 }, { status: 200, range: null })), {}]);
  for (const [name, make, config] of modes) {
    if (!c.mine()) continue;
    const cs = { data: g.name, server: name };
    c.at(JSON.stringify(cs));
    (globalThis as any).fetch = async (url: any, init: any) => {
      const f = files[String(url?.url ?? url).split("/").pop()!];
      const rs = parseRange(init, url);
      if (rs.some((r) => r.start >= f.length)) return unsatisfiable(f);
      return make(f, rs);
    };
    const got = await results(await init("http://verif.invalid/data", "http://verif.invalid/index", config), cs, c);
    if (got !== null && want !== null && got !== want) c.violate("client", cs, `the results differ from those without a server: ${got.slice(0, 200)}`);
    c.state("client " + g.name + name);
    c.trace();
  }
}

// ---- a real server: the file server of Go's standard library over the loopback network ----

const realFetch = globalThis.fetch;

// starting a process may fail when the machine is short of memory
async function serve(dir: string) {
  for (let k = 0; k < 20; k++) {
    try {
      const child = spawn(process.env.MC_BIN!, ["serve", dir], { stdio: ["pipe", "pipe", "inherit"] });
      const port = await new Promise<string>((ok, no) => {
        child.once("error", no);
        child.stdout?.once("data", (b) => ok(String(b).trim()));
        child.once("exit", () => no(new Error("the server ended")));
      });
      if (/^\d+$/.test(port)) return { child, port };
      child.kill();
    } catch {}
    await new Promise((ok) => setTimeout(ok, 500));
  }
  return null;
}

// a connection may be lost for reasons outside the client
async function patiently<X>(f: () => Promise<X>): Promise<X> {
  for (let k = 0; ; k++) {
    try {
      return await f();
    } catch (e: any) {
      if (k === 4 || !(e instanceof TypeError && /fetch failed|terminated/.test(e.message))) throw e;
      await new Promise((ok) => setTimeout(ok, 100 << k));
    }
  }
}

async function real(c: Ctx) {
  const dir = path.join(process.env.MC_DIR!, "served" + c.shard);
  fs.mkdirSync(dir, { recursive: true });
  const sizes = [1, 12, 100, 4096, 5000, 70000];
  const files = sizes.map((n) => Uint8Array.from({ length: n }, (_, i) => byteAt(i * 13 + n)));
  files.forEach((f, i) => fs.writeFileSync(path.join(dir, "f" + sizes[i]), f));
  // data that looks like the frame of a multipart answer
  const frame = Buffer.from("\r\n--x--\r\nContent-Range: bytes 0-1/2\r\n\r\n--\r\n".repeat(40));
  files.push(new Uint8Array(frame));
  fs.writeFileSync(path.join(dir, "f" + frame.length), frame);
  const gens = [...bundle()].filter((g) => g.kind !== "fields" && !g.error);
  gens.forEach((g, i) => {
    fs.writeFileSync(path.join(dir, `data${i}`), new Uint8Array(g.data));
    fs.writeFileSync(path.join(dir, `index${i}`), new Uint8Array(g.index));
  });
  const server = await serve(dir);
  if (!server) {
    c.note("no file server", "it could not be started");
    return;
  }
  const { child, port } = server;
  try {
    (globalThis as any).fetch = (u: any, o: any) => patiently(() => realFetch(u, o));
    for (const f of files) {
      const n = f.length;
      const menu: R[] = [];
      for (const s of [0, 1, n >> 1, n - 2, n - 1, n, 37, 4095])
        for (const l of [1, 2, 11, n >> 1, n, 4096]) if (s >= 0 && l >= 1 && !menu.some((r) => r.start === s && r.end === s + l - 1)) menu.push({ start: s, end: s + l - 1 });
      const lists: R[][] = menu.map((r) => [r]);
      menu.forEach((a, i) => menu.forEach((b, j) => (c.thorough || (i * 3 + j) % 5 === 0) && lists.push([a, b])));
      for (const k of [3, 8, 40, 200]) for (const w of [1, 7, 20]) lists.push(Array.from({ length: k }, (_, i) => ({ start: (i * 29) % n, end: ((i * 29) % n) + w - 1 })));
      for (const rs of lists) {
        if (!c.mine()) continue;
        if (c.tooMany() || c.expired("real")) return;
        for (const mode of ["full", "flush", "single", "whole"])
          for (const multi of [true, false]) {
            const able = rs.every((r) => r.start < n);
            const cs = { file: n, ranges: rs.length > 4 ? rs.length : rs, server: mode, multi };
            c.at("real " + JSON.stringify(cs));
            c.trans();
            let res: any;
            try {
              res = await patiently(() => requestRanges(`http://127.0.0.1:${port}/${mode}/f${n}`, rs.map((r) => ({ ...r })), { useMultipartByteRanges: multi }));
            } catch (e: any) {
              if (able && mode !== "whole") c.violate("real-fails", cs, `fails with a file server: ${e && e.message}`);
              continue;
            }
            const bad = judge(f, rs, res, false);
            if (bad) c.violate("real", cs, bad);
          }
        c.state("real " + n + JSON.stringify(rs));
      }
      c.trace();
    }
    for (let i = 0; i < gens.length; i++)
      for (const mode of ["full", "flush", "single"])
        for (const config of [undefined, {}, { useMultipartByteRanges: false }]) {
          if (!c.mine()) continue;
          const cs = { data: gens[i].name, server: mode, config };
          c.at("real client " + JSON.stringify(cs));
          const url = (s: string) => `http://127.0.0.1:${port}/${mode}/${s}${i}`;
          const want = await results(await init(memResolver(gens[i].data), memResolver(gens[i].index)), { data: gens[i].name, direct: true }, c);
          const got = await results(await init(url("data"), url("index"), config), cs, c);
          if (got !== null && want !== null && got !== want) c.violate("client", cs, `the results differ from those without a server: ${got.slice(0, 200)}`);
          c.state("real client " + JSON.stringify(cs));
          c.trace();
        }
  } finally {
    install();
    child.stdin.end();
    child.kill();
  }
}

async function run(c: Ctx) {
  install();
  const all: R[] = [];
  for (let s = 0; s <= SIZE + 1; s++) for (let e = s; e <= SIZE + 2; e++) all.push({ start: s, end: e });
  for (const r of [
    { start: 4, end: 3 },
    { start: 1, end: 0 },
  ])
    all.push(r);
  for (const r of all) {
    if (!c.mine()) continue;
    if (c.tooMany() || c.expired("lists")) break;
    await c.guard("answer", r, () => lists(c, [r], false));
    if (r.start < SIZE && r.start <= r.end) await c.guard("cut", r, () => cuts(c, [r]));
    c.sample({ ranges: [r] });
    c.trace();
  }
  const menu: R[] = [
    { start: 0, end: 0 },
    { start: 0, end: 3 },
    { start: 2, end: 5 },
    { start: 4, end: 4 },
    { start: 5, end: 11 },
    { start: 0, end: 11 },
    { start: 10, end: 14 },
    { start: 11, end: 11 },
    { start: 12, end: 13 },
  ];
  const rec = async (pre: R[], max: number) => {
    if (pre.length >= 2 && c.mine()) {
      if (c.tooMany() || c.expired("lists")) return;
      await c.guard("answer", pre, () => lists(c, pre, !c.thorough));
      if (pre.every((r) => r.start < SIZE) && (c.thorough ? pre.length === 2 : pre[0].end - pre[0].start < 4)) await c.guard("cut", pre, () => cuts(c, pre));
      c.trace();
    }
    if (pre.length === max) return;
    for (const r of menu) await rec([...pre, r], max);
  };
  await rec([], c.bound(2, 3));
  await c.guard("far", null, () => far(c));
  await c.guard("many", null, () => many(c));
  for (const g of bundle()) await c.guard("client", g.name, () => client(c, g));
  await c.guard("real", null, () => real(c));
}

check({
  id: "C03",
  run,
  rule: "every single range of a 12-byte file (also past its end) and every pair (thorough: triple) of a menu, against every answer of a menu of proper and improper ones, every pair of answers to individual requests, every place where an answer breaks off and every byte of it changed; expected lengths; files of up to 2^53 bytes with labels off by powers of two; up to 500 ranges at once and every order of answers to individual requests; the whole client over several kinds of servers; lists of ranges and the whole client against a real file server (Go's net/http) answering with several parts, in small chunks, with one part only, or with the whole file",
  assumptions: ["the server's statements about ranges are the only way to tell which bytes it sends", "fetch and Response of Node"],
});
