import { check, Ctx, wordsOf } from "../lib/core";
import parseMultipartBody from "repo/resolver/multipart";

type Part = { data: Uint8Array; headers: Record<string, string> };
const enc = new TextEncoder();

function cat(...bs: (Uint8Array | string)[]): Uint8Array {
  return new Uint8Array(Buffer.concat(bs.map((b) => (typeof b === "string" ? enc.encode(b) : b))));
}

// ---- building bodies -----------------------------------------------------------

type Spec = { boundary: string; contentType?: string; parts: { data: Uint8Array; head: [string, string][] }[]; lead?: string; tail?: string };

function build(s: Spec): { body: Uint8Array; parts: Part[]; contentType: string } {
  const out: (Uint8Array | string)[] = [s.lead ?? ""];
  const parts: Part[] = [];
  let at = 10;
  for (const p of s.parts) {
    out.push(`--${s.boundary}\r\n`);
    const headers: Record<string, string> = {};
    for (const [k, v] of p.head) {
      const value = v.replace("RANGE", `bytes ${at}-${at + p.data.length - 1}/99999`);
      out.push(`${k}:${value}\r\n`);
      headers[k.trim().toLowerCase()] = value.trim();
    }
    out.push("\r\n", p.data, "\r\n");
    parts.push({ data: p.data, headers });
    at += p.data.length + 3;
  }
  out.push(`--${s.boundary}--`, s.tail ?? "\r\n");
  return { body: cat(...out), parts, contentType: s.contentType ?? `multipart/byteranges; boundary=${s.boundary}` };
}

const HEAD: [string, string][] = [["Content-Range", " RANGE"]];

function spec(boundary: string, ...datas: (string | Uint8Array)[]): Spec {
  return { boundary, parts: datas.map((d) => ({ data: typeof d === "string" ? enc.encode(d) : d, head: HEAD })) };
}

// ---- reference decoder of any body: what a part at this place may be -----------------

function reference(b: Uint8Array, boundary: string): Uint8Array[] {
  const s = Buffer.from(b).toString("latin1");
  const out: Uint8Array[] = [];
  const delim = "--" + boundary;
  // line breaks, or lines of text, may precede the first boundary
  const lead = /^[\r\n]*/.exec(s)![0].length;
  let pos = s.startsWith(delim, lead) ? lead : s.indexOf("\r\n" + delim) + 2;
  if (pos < 2 && lead === 0 && !s.startsWith(delim)) return out;
  while (true) {
    if (!s.startsWith(delim, pos)) return out;
    pos += delim.length;
    while (s[pos] === " " || s[pos] === "\t") pos++;
    if (!s.startsWith("\r\n", pos)) return out;
    pos += 2;
    let range: string | undefined;
    while (true) {
      const nl = s.indexOf("\r\n", pos);
      if (nl < 0) return out;
      const line = s.slice(pos, nl);
      pos = nl + 2;
      if (line === "") break;
      const colon = line.indexOf(":");
      if (colon >= 0 && line.slice(0, colon).trim().toLowerCase() === "content-range") range = line.slice(colon + 1).trim();
    }
    const m = range === undefined ? null : /^bytes\s+(\d+)-(\d+)\/(\d+|\*)$/i.exec(range);
    if (!m) return out;
    const n = Number(m[2]) - Number(m[1]) + 1;
    if (n <= 0 || pos + n > s.length) return out;
    out.push(b.subarray(pos, pos + n));
    pos += n;
    if (!s.startsWith("\r\n", pos)) return out;
    pos += 2;
  }
}

// ---- decoding ------------------------------------------------------------------------

type Outcome = { parts: Part[]; err?: string };

function streamOf(chunks: Uint8Array[], fail: boolean): ReadableStream {
  let i = 0;
  return new ReadableStream(
    {
      pull(ctl) {
        if (i < chunks.length) ctl.enqueue(chunks[i++]);
        else if (fail) ctl.error(new TypeError("terminated"));
        else ctl.close();
      },
    },
    { highWaterMark: 0 },
  );
}

async function decode(contentType: string, chunks: Uint8Array[], fail = false, stopAfter?: number): Promise<Outcome> {
  const parts: Part[] = [];
  try {
    for await (const { data, headers } of parseMultipartBody(contentType, streamOf(chunks, fail))) {
      parts.push({ data: new Uint8Array(data.slice(0)), headers: { ...headers } });
      if (stopAfter !== undefined && parts.length >= stopAfter) break;
      if (parts.length > 1000) throw new Error("endless parts");
    }
  } catch (e: any) {
    return { parts, err: String(e && e.message) };
  }
  return { parts };
}

function same(a: Uint8Array, b: Uint8Array): boolean {
  return Buffer.compare(a, b) === 0;
}

function headersEqual(a: Record<string, string>, b: Record<string, string>): boolean {
  // names compare without regard to case
  const f = (h: Record<string, string>) => JSON.stringify(Object.entries(h).map(([k, v]) => [k.toLowerCase(), v]).sort());
  return f(a) === f(b);
}

function short(b: Uint8Array): string {
  const s = JSON.stringify(Buffer.from(b).toString("latin1"));
  return s.length > 300 ? s.slice(0, 300) + "..." : s;
}

// the body must come out exactly
function exact(c: Ctx, key: string, cs: () => any, want: Part[], got: Outcome) {
  c.trans();
  if (got.err !== undefined) return c.violate(key, cs(), `fails: ${got.err}`);
  if (got.parts.length !== want.length) return c.violate(key, cs(), `${got.parts.length} parts, expected ${want.length}`);
  prefix(c, key, cs, want, got);
}

// whatever came out must be the beginning of what is there
function prefix(c: Ctx, key: string, cs: () => any, want: Part[], got: Outcome) {
  if (got.parts.length > want.length) return c.violate(key, cs(), `${got.parts.length} parts come out, only ${want.length} are complete`);
  for (let i = 0; i < got.parts.length; i++) {
    if (!same(got.parts[i].data, want[i].data)) return c.violate(key, cs(), `part ${i} is ${short(got.parts[i].data)}, expected ${short(want[i].data)}`);
    if (!headersEqual(got.parts[i].headers, want[i].headers)) return c.violate(key + "-headers", cs(), `part ${i} has the headers ${JSON.stringify(got.parts[i].headers)}, expected ${JSON.stringify(want[i].headers)}`);
  }
}

function slices(b: Uint8Array, at: number[]): Uint8Array[] {
  const out: Uint8Array[] = [];
  let p = 0;
  for (const a of [...at, b.length]) {
    out.push(b.slice(p, a));
    p = a;
  }
  return out;
}

function uniform(b: Uint8Array, n: number): Uint8Array[] {
  const out: Uint8Array[] = [];
  for (let p = 0; p < b.length; p += n) out.push(b.slice(p, p + n));
  return out;
}

// ---- the explorations -----------------------------------------------------------------

// every way to cut the stream once, into equal chunks, with empty chunks; pairs on demand
async function chunkings(c: Ctx, s: Spec, pairs: boolean) {
  const { body, parts, contentType } = build(s);
  const cs = (how: string) => () => ({ body: short(body), contentType, chunks: how });
  c.at("chunkings " + short(body));
  exact(c, "whole", cs("one"), parts, await decode(contentType, [body]));
  for (let i = 0; i <= body.length; i++) exact(c, "cut", cs(`cut at ${i}`), parts, await decode(contentType, slices(body, [i])));
  for (const n of [1, 2, 3, 5, 7, 16]) exact(c, "uniform", cs(`chunks of ${n}`), parts, await decode(contentType, uniform(body, n)));
  exact(c, "empty", cs("empty chunks between all bytes"), parts, await decode(contentType, uniform(body, 1).flatMap((x) => [new Uint8Array(0), x, new Uint8Array(0), new Uint8Array(0)])));
  if (pairs)
    for (let i = 0; i <= body.length; i++) {
      c.tick();
      for (let j = i; j <= body.length; j++) exact(c, "cut2", cs(`cut at ${i} and ${j}`), parts, await decode(contentType, slices(body, [i, j])));
    }
  // a consumer that stops early
  for (let k = 1; k <= parts.length; k++) prefix(c, "stop", cs(`stop after ${k}`), parts.slice(0, k), await decode(contentType, uniform(body, 4), false, k));
  c.state(short(body) + contentType);
  c.trace();
}

// every place where the stream ends or breaks off
async function truncations(c: Ctx, s: Spec) {
  const { body, parts, contentType } = build(s);
  c.at("truncations " + short(body));
  // a part is complete where its data ends
  const complete = (n: number) => {
    let k = 0,
      p = 0;
    for (const x of parts) {
      p = Buffer.from(body).indexOf(Buffer.from("\r\n\r\n"), p) + 4 + x.data.length;
      if (p <= n) k++;
      else break;
    }
    return parts.slice(0, k);
  };
  for (let n = 0; n < body.length; n++)
    for (const fail of [false, true])
      for (const size of [1, 6, 1 << 20]) {
        c.trans();
        prefix(c, "truncated", () => ({ body: short(body.slice(0, n)), contentType, fail, size }), complete(n), await decode(contentType, uniform(body.slice(0, n), size), fail));
      }
  c.state("t " + short(body));
}

// every byte changed, removed or doubled: compared with the reference decoder
async function damages(c: Ctx, s: Spec, values: number[]) {
  const { body, contentType } = build(s);
  c.at("damages " + short(body));
  const one = async (b: Uint8Array) => {
    c.trans();
    const want = reference(b, s.boundary);
    const got = await decode(contentType, [b]);
    if (got.parts.length > want.length) return c.violate("damaged", { body: short(b), contentType }, `${got.parts.length} parts come out of a body with ${want.length}`);
    for (let i = 0; i < got.parts.length; i++)
      if (!same(got.parts[i].data, want[i])) return c.violate("damaged", { body: short(b), contentType }, `part ${i} is ${short(got.parts[i].data)}, the body has ${short(want[i])}`);
  };
  for (let i = 0; i < body.length; i++) {
    c.tick();
    for (const v of values) {
      if (body[i] === v) continue;
      const b = body.slice();
      b[i] = v;
      await one(b);
    }
    await one(cat(body.slice(0, i), body.slice(i + 1)));
    await one(cat(body.slice(0, i), body.slice(i, i + 1), body.slice(i)));
  }
  c.state("d " + short(body));
}

async function large(c: Ctx) {
  const sizes = [4000, 4090, 4093, 4094, 4095, 4096, 4097, 4100, 8190, 8191, 8192, 8193, 12288, 20000, 70000];
  const fill = (n: number, k: number) => Uint8Array.from({ length: n }, (_, i) => (i * 7 + (i >> 8) * 13 + k) & 0xff);
  const specs: Spec[] = [];
  for (const n of sizes) {
    specs.push(spec("BOUND", fill(n, 1)));
    specs.push(spec("BOUND", fill(n, 1), fill(3, 2)));
    specs.push(spec("BOUND", fill(5, 1), fill(n, 2)));
  }
  for (let n = c.bound(4020, 3800); n < c.bound(4110, 4300); n++) specs.push(spec("BOUND", fill(n, 3), fill(10, 4), fill(4096, 5)));
  // headers larger than the buffer
  for (const n of [4000, 4060, 4096, 5000, 9000])
    specs.push({ boundary: "BOUND", parts: [{ data: fill(20, 1), head: [["X-Long", " " + "v".repeat(n)], ...HEAD] }, { data: fill(4100, 2), head: HEAD }] });
  specs.push({ ...spec("B".repeat(70), fill(100, 1), fill(4096, 2)) });
  for (const s of specs) {
    if (!c.mine()) continue;
    if (c.tooMany() || c.expired("large")) return;
    const { body, parts, contentType } = build(s);
    const cs = (how: string) => () => ({ sizes: parts.map((p) => p.data.length), chunks: how });
    for (const n of [1, 2, 3, 100, 1000, 2048, 4095, 4096, 4097, 8192, 65536, 1 << 20]) {
      c.at(`large ${parts.map((p) => p.data.length)} chunks of ${n}`);
      await c.guard("large", cs(`chunks of ${n}`)(), async () => exact(c, "large", cs(`chunks of ${n}`), parts, await decode(contentType, uniform(body, n))));
    }
    // one cut around the multiples of the buffer size
    for (let m = 4096; m <= body.length; m += 4096)
      for (let d = -4; d <= 4; d++) if (m + d > 0 && m + d < body.length) exact(c, "large", cs(`cut at ${m + d}`), parts, await decode(contentType, slices(body, [m + d])));
    for (const cut of [1, 100, 4095, 4096, 4097, body.length - 100, body.length - 12])
      if (cut < body.length) {
        const whole = parts.filter((_, i) => {
          let end = 0;
          for (let k = 0; k <= i; k++) end = Buffer.from(body).indexOf(Buffer.from("\r\n\r\n"), end) + 4 + parts[k].data.length;
          return end <= cut;
        });
        prefix(c, "large-cut", cs(`ends after ${cut}`), whole, await decode(contentType, uniform(body.slice(0, cut), 1000)));
      }
    c.state("large " + parts.map((p) => p.data.length));
    c.trace();
  }
}

async function contentTypes(c: Ctx) {
  if (c.shard !== 0) return;
  const good = [
    ["multipart/byteranges; boundary=X", "X"],
    ["multipart/byteranges;boundary=X", "X"],
    ["multipart/byteranges; charset=utf-8; boundary=X", "X"],
    ["multipart/byteranges; boundary=X; charset=utf-8", "X"],
    ['multipart/byteranges; boundary="X"', "X"],
    ['multipart/byteranges; boundary="X y"', "X y"],
    ["multipart/byteranges; boundary='()+_,-./:=?", "'()+_,-./:=?"],
    ["multipart/byteranges; boundary=a=b", "a=b"],
    ["multipart/byteranges; boundary=--", "--"],
    ["multipart/byteranges; boundary=----WebKit", "----WebKit"],
    ["multipart/byteranges; boundary=" + "9".repeat(70), "9".repeat(70)],
  ];
  for (const [contentType, boundary] of good) await chunkings(c, { ...spec(boundary, "hello", "--X--"), contentType }, false);
  const bad = ["", "text/plain", "multipart/mixed; boundary=X", "multipart/byteranges", "multipart/byteranges; boundary=", "multipart/byteranges; charset=X", "application/octet-stream; boundary=X", "xmultipart/byteranges; boundary=X"];
  for (const contentType of bad) {
    const { body } = build(spec("X", "hello"));
    const got = await decode(contentType, [body]);
    c.trans();
    if (got.parts.length > 0) c.violate("content-type", { contentType }, `a body of type ${JSON.stringify(contentType)} is decoded`);
  }
}

async function run(c: Ctx) {
  // every content of parts over the characters boundaries are made of
  const alpha = ["\r", "\n", "-", "B"];
  const datas: string[][] = [[]];
  for (let n = 1; n <= c.bound(4, 5); n++) {
    datas[n] = [];
    for (const w of wordsOf(alpha.length, n)) datas[n].push(w.map((k) => alpha[k]).join(""));
  }
  const upTo = (n: number) => datas.slice(1, n + 1).flat();
  for (const d of upTo(c.bound(4, 5))) {
    if (!c.mine()) continue;
    if (c.tooMany() || c.expired("contents")) break;
    await c.guard("contents", d, () => chunkings(c, spec("B", d), d.length <= c.bound(2, 3)));
    if (d.length <= 3) await c.guard("contents", d, () => truncations(c, spec("B", d)));
  }
  for (const a of upTo(c.bound(2, 3)))
    for (const b of upTo(2)) {
      if (!c.mine()) continue;
      if (c.tooMany() || c.expired("contents")) break;
      await c.guard("contents", [a, b], () => chunkings(c, spec("B", a, b), false));
      await c.guard("contents", [a, b], () => truncations(c, spec("B", a, b)));
    }
  // longer ones with the boundary inside, all pairs of cuts
  const H2: [string, string][] = [
    ["content-type", " text/plain; a=b"],
    ["CONTENT-RANGE", "RANGE  "],
    ["X-Time", " 12:34:56"],
  ];
  const H3: [string, string][] = [
    ["Content-Range", " RANGE"],
    ["Content-Type", " application/octet-stream"],
    ["X-Empty", ""],
  ];
  const longer: Spec[] = [
    spec("BOUND", "\r\n--BOUND\r\nContent-Range: bytes 0-1/5\r\n\r\nab\r\n--BOUND--\r\n"),
    spec("BOUND", "--BOUND--", "\r\n--BOUND--\r\n"),
    { boundary: "BOUND", parts: [{ data: enc.encode("one"), head: H2 }, { data: enc.encode("\r\n\r\n"), head: H3 }, { data: enc.encode("x"), head: HEAD }] },
    { ...spec("b", "data", "\r\n--b"), lead: "\r\n", tail: "" },
    { ...spec("b", "data"), tail: "\r\nepilogue --b\r\n\r\n" },
    { ...spec("-", "-", "--", "---") },
    { boundary: "b", parts: [] },
    spec("b", Uint8Array.of(0, 255, 128, 13, 10, 45, 45, 98)),
  ];
  for (const s of longer) {
    const { body } = build(s);
    if (c.samples.length < 1) c.sample({ body: short(body) });
    // pairs of cuts are distributed by the first
    if (c.mine()) await c.guard("longer", short(body), () => chunkings(c, s, false));
    if (c.mine()) await c.guard("longer", short(body), () => truncations(c, s));
    const { parts, contentType } = build(s);
    for (let i = 0; i <= body.length; i++) {
      if (!c.mine()) continue;
      if (c.tooMany() || c.expired("longer")) break;
      c.at(`longer ${short(body)} ${i}`);
      for (let j = i; j <= body.length; j++) exact(c, "cut2", () => ({ body: short(body), cuts: [i, j] }), parts, await decode(contentType, slices(body, [i, j])));
    }
    const values = [0, 9, 10, 13, 32, 45, 48, 49, 57, 58, 66, 98, 0xff];
    if (c.thorough) for (let v = 0; v < 256; v += 3) if (!values.includes(v)) values.push(v);
    if (c.mine()) await c.guard("longer", short(body), () => damages(c, s, values));
  }
  for (const d of upTo(2)) {
    if (!c.mine()) continue;
    if (c.tooMany() || c.expired("damages")) break;
    await c.guard("damages", d, () => damages(c, spec("B", d, "xy"), [0, 10, 13, 32, 45, 48, 49, 50, 66]));
  }
  await large(c);
  await c.guard("types", null, () => contentTypes(c));
}

check({
  id: "C04",
  run,
  rule: "every content of one and two parts over the characters of a boundary up to the bound, with every single cut of the stream, equal chunks, empty chunks and every place of breaking off; longer bodies with every pair of cuts; every byte changed, removed or doubled, against a reference decoder; parts and headers around and beyond the buffer size",
  assumptions: ["ReadableStream of Node"],
});
