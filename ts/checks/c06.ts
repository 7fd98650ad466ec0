import { bundle, check, Ctx, GenCase, indexResolver, memResolver } from "../lib/core";
import { init } from "repo/index";
import { IndexFile } from "repo/file/index-file";
import { collectIndexMetas, FileFormat, readFileMeta, readIndexMeta } from "repo/file/meta";
import { FieldType, fieldTypeToString } from "repo/db/database";

type Header = { name: string; type: number; width: number; total: number; root: number; rootLength: number };

function buf(b: number[]): ArrayBuffer {
  return Uint8Array.from(b).buffer;
}

async function refused(f: () => any): Promise<string | null> {
  try {
    const r = await f();
    return JSON.stringify(r, (_k, v) => (typeof v === "bigint" ? `${v}n` : v));
  } catch {
    return null;
  }
}

// ---- single header records ---------------------------------------------------

async function fileMetas(c: Ctx, g: GenCase) {
  let k = 0;
  for (const m of g.extra.list) {
    if (!c.mine()) continue;
    k++;
    const cs = { bytes: Buffer.from(m.Bytes).toString("hex") };
    await c.guard("file-header", cs, async () => {
      const r = await readFileMeta(buf(m.Bytes));
      c.trans();
      c.state("fm " + cs.bytes);
      if (r.version !== m.Version || r.format !== m.Format || r.readOffset !== BigInt(m.ReadOffset) || r.entries !== Number(m.Entries))
        c.violate("file-header", cs, `read as ${r.version} ${r.format} ${r.readOffset} ${r.entries}, written as ${m.Version} ${m.Format} ${m.ReadOffset} ${m.Entries}`);
    });
    for (let n = 0; n < m.Bytes.length; n++) {
      c.trans();
      const got = await refused(() => readFileMeta(buf(m.Bytes.slice(0, n))));
      if (got !== null) c.violate("file-header-cut", { ...cs, n }, `the first ${n} of ${m.Bytes.length} bytes are read as ${got}`);
    }
    for (let v = 0; v < 256 && k <= c.bound(12, 1000); v++) {
      for (const [i, ok] of [
        [0, v === m.Version],
        [1, v === 0 || v === 1],
      ] as [number, boolean][]) {
        if (ok) continue;
        c.trans();
        const b = m.Bytes.slice();
        b[i] = v;
        const got = await refused(() => readFileMeta(buf(b)));
        if (got !== null) c.violate(i === 0 ? "version" : "format", { ...cs, value: v }, `unknown ${i === 0 ? "version" : "format"} ${v} is read as ${got}`);
      }
    }
  }
}

async function indexMetas(c: Ctx, g: GenCase) {
  for (const m of g.extra.list) {
    if (!c.mine()) continue;
    if (c.tooMany()) return;
    const cs = { name: m.Name.slice(0, 40), bytes: Buffer.from(m.Bytes).toString("hex") };
    await c.guard("entry", cs, () => {
      const r = readIndexMeta(buf(m.Bytes));
      c.trans();
      c.state("im " + cs.bytes);
      if (r.fieldName !== m.Name || r.fieldType !== m.Type || r.width !== m.Width || r.totalFieldValueLength !== Number(m.Total))
        c.violate("entry", cs, `read as ${JSON.stringify(r)}, written as ${JSON.stringify({ ...m, Bytes: undefined })}`);
    });
    for (let n = 0; n < m.Bytes.length; n++) {
      // of long names the cuts around the parts
      if (!c.thorough && m.Bytes.length > 30 && n > 12 && n < m.Bytes.length - 14) continue;
      c.trans();
      const got = await refused(() => readIndexMeta(buf(m.Bytes.slice(0, n))));
      if (got !== null) c.violate("entry-cut", { ...cs, n }, `the first ${n} of ${m.Bytes.length} bytes are read as ${got}`);
    }
  }
}

// the client's names for types and formats stand for the indexer's numbers
function numbers(c: Ctx, g: GenCase) {
  for (const [from, table] of [
    ["types", FieldType],
    ["types", (globalThis as any).Appendable.FieldType],
    ["formats", FileFormat],
  ] as [string, any][])
    for (const [name, n] of Object.entries<number>(g.extra[from])) {
      c.trans();
      if (table[name] !== n) c.violate("number", { name }, `the client takes ${name} for ${table[name]}, the indexer writes ${n}`);
    }
  for (const f of [fieldTypeToString, (globalThis as any).Appendable.fieldTypeToString])
    for (const [name, n] of Object.entries<number>(g.extra.types)) {
      c.trans();
      if (f(n) !== name) c.violate("type-name", { name }, `type ${n} (${name}) is called ${f(n)}`);
    }
}

// ---- whole indexes ---------------------------------------------------------------

function fieldsOf(hs: Header[]): Map<string, number[]> {
  const out = new Map<string, number[]>();
  for (const h of hs) out.set(h.name, [...(out.get(h.name) ?? []), h.type]);
  return out;
}

function diffFields(got: { fieldName: string; fieldTypes: number[] }[], want: Map<string, number[]>): string | null {
  const seen = new Set<string>();
  for (const f of got) {
    if (seen.has(f.fieldName)) return `field ${JSON.stringify(f.fieldName)} is reported twice`;
    seen.add(f.fieldName);
    const w = want.get(f.fieldName);
    if (!w) return `field ${JSON.stringify(f.fieldName)} does not exist`;
    const a = [...f.fieldTypes].sort((x, y) => x - y).join(),
      b = [...w].sort((x, y) => x - y).join();
    if (a !== b) return `field ${JSON.stringify(f.fieldName)} has the types ${a}, expected ${b}`;
  }
  for (const n of want.keys()) if (!seen.has(n)) return `field ${JSON.stringify(n)} is missing`;
  return null;
}

const NUMERIC = [FieldType.Float64, FieldType.Int64, FieldType.Uint64];

async function checkIndex(c: Ctx, g: GenCase) {
  const hs: Header[] = g.extra.headers;
  const want = fieldsOf(hs);
  const cs = { data: g.name };
  for (const order of [0, 1, 2, 3]) {
    // once as a page including the script does it
    const db: any = await (order === 2 ? (globalThis as any).Appendable.init : init)(memResolver(g.data), indexResolver(g));
    const ix = await IndexFile.forResolver(indexResolver(g));
    if (order === 1) await db.fields();
    if (order === 2) await Promise.all([db.fields(), ix.indexHeaders(), ix.metadata()]);
    if (order === 3)
      for (const list of await Promise.all([ix.indexHeaders(), db.fields(), ix.indexHeaders(), db.fields()])) {
        const bad = diffFields(list, want);
        if (bad) c.violate("fields-at-once", cs, bad);
      }
    for (const list of [await db.fields(), await ix.indexHeaders(), await db.fields(), ...(await Promise.all([ix.indexHeaders(), ix.indexHeaders()]))]) {
      c.trans();
      const bad = diffFields(list, want);
      if (bad) c.violate("fields", cs, bad);
    }
    const m = await ix.metadata();
    c.trans();
    if (m.version !== 1 || m.format !== g.extra.format || m.readOffset !== BigInt(g.extra.readOffset) || m.entries !== g.extra.entries)
      c.violate("file-header-index", cs, `version ${m.version} format ${m.format} read offset ${m.readOffset} entries ${m.entries}, expected 1 ${g.extra.format} ${g.extra.readOffset} ${g.extra.entries}`);
    if (order > 0) continue;
    // locating fields
    for (const name of [...want.keys(), "nope", "f", "f00", " "]) {
      for (let type = 0; type <= 11; type++) {
        const found = await ix.seek(name, type);
        c.trans();
        const expect = hs.filter((h) => h.name === name && (type === FieldType.Float64 ? NUMERIC.includes(h.type) : h.type === type));
        const got: string[] = [];
        for (const p of found) {
          const im = readIndexMeta(await p.metadata());
          const root = await p.root();
          got.push(JSON.stringify([im.fieldName, im.fieldType, im.width, im.totalFieldValueLength, Number(root.offset), root.length]));
        }
        const exp = expect.map((h) => JSON.stringify([h.name, h.type, h.width, h.total, h.root, h.rootLength]));
        if (got.sort().join("\n") !== exp.sort().join("\n"))
          c.violate("seek", { ...cs, name, type }, `locating field ${JSON.stringify(name)} of type ${type} finds ${got.join(" ").slice(0, 300)}, expected ${exp.join(" ").slice(0, 300)}`);
      }
    }
  }
  c.state("ix " + g.name);
  c.trace();
}

// what is observed of an index file cut after n bytes: as much or an error
async function cut(c: Ctx, g: GenCase, n: number) {
  const cs = { data: g.name, bytes: n };
  const ix = await IndexFile.forResolver(memResolver(g.index.slice(0, n)));
  c.trans();
  c.tick();
  try {
    const m = await ix.metadata();
    if (m.version !== 1 || m.format !== g.extra.format || m.readOffset !== BigInt(g.extra.readOffset) || m.entries !== g.extra.entries)
      c.violate("cut-file-header", cs, `the index cut after ${n} bytes reads as version ${m.version} format ${m.format} read offset ${m.readOffset} entries ${m.entries}`);
  } catch {}
  try {
    const bad = diffFields(await ix.indexHeaders(), fieldsOf(g.extra.headers));
    if (bad) c.violate("cut-fields", cs, `the index cut after ${n} bytes: ${bad}`);
  } catch {}
  c.state(`cut ${g.name} ${n}`);
}

async function damaged(c: Ctx, g: GenCase) {
  // the version and format bytes of the file header
  const at = 4096 + 8 + 1 + 12 + 1;
  for (let v = 0; v < 256; v++)
    for (const i of [0, 1]) {
      if (i === 0 ? v === 1 : v <= 1) continue;
      const b = g.index.slice(0);
      new Uint8Array(b)[at + i] = v;
      const ix = await IndexFile.forResolver(memResolver(b));
      const db: any = await init(memResolver(g.data), memResolver(b));
      c.trans();
      if ((await refused(() => ix.metadata())) !== null) c.violate("unknown-" + i, { data: g.name, value: v }, `an index of unknown ${i ? "format" : "version"} ${v} is read`);
      const q = await refused(async () => {
        const rows = [];
        for await (const r of db.query({ where: [{ key: "f1", operation: ">=", value: 0 }] })) rows.push(r);
        return rows;
      });
      if (q !== null) c.violate("unknown-query-" + i, { data: g.name, value: v }, `an index of unknown ${i ? "format" : "version"} ${v} is queried`);
    }
}

// ---- collecting header entries -----------------------------------------------------

async function collecting(c: Ctx) {
  const menu: [string, number][] = [
    ["a", 0],
    ["a", 3],
    ["b", 0],
    ["b", 7],
    ["", 3],
    ["constructor", 0],
    ["__proto__", 3],
    ["\u00e9", 0],
    ["\u00e9", 3],
    ["e\u0301", 0],
    ["e\u0301", 3],
    ["A", 0],
    [" a", 3],
    ["\uff41", 0],
  ];
  const rec = async (pre: [string, number][]) => {
    if (pre.length > 0) {
      const metas = pre.map(([fieldName, fieldType]) => ({ fieldName, fieldType, width: 0, totalFieldValueLength: 0 }));
      await c.guard("collect", pre, () => {
        const want = new Map<string, number[]>();
        for (const [n, t] of pre) want.set(n, [...(want.get(n) ?? []), t]);
        const bad = diffFields(collectIndexMetas(metas), want);
        c.trans();
        if (bad) c.violate("collect", pre, bad);
      });
    }
    if (pre.length === c.bound(4, 5)) return;
    for (const m of menu) {
      if (pre.length === 1 && !c.mine()) continue;
      await rec([...pre, m]);
    }
  };
  await rec([]);
}

async function run(c: Ctx) {
  for (const g of bundle((_i, m) => (m.kind === "index" ? c.mine() : true))) {
    if (c.tooMany() || c.expired("cases")) break;
    c.at(g.name);
    if (g.kind === "filemeta") await fileMetas(c, g);
    else if (g.kind === "indexmeta") await indexMetas(c, g);
    else if (g.kind === "numbers") await c.guard("numbers", null, () => numbers(c, g));
    else if (g.error) c.violate("not-indexed", { data: g.name }, `the indexer refuses the data: ${g.error}`);
    else {
      if (c.samples.length < 1) c.sample({ name: g.name, headers: g.extra.headers.slice(0, 3) });
      await c.guard("index", { data: g.name }, () => checkIndex(c, g));
      const m = /^fields (\d+) mix/.exec(g.name);
      // every length of the first header pages; for all indexes those around page ends
      const lens = new Set<number>();
      const every = c.thorough ? m || g.name === "names" : g.name === "names" || (m && [2, 14, 15, 16, 31].includes(Number(m[1])));
      if (every) for (let n = 4096; n < Math.min(g.index.byteLength, 3 * 4096 + 64); n++) lens.add(n);
      for (let p = 4096; p <= g.index.byteLength; p += 4096) for (const d of [-1, 0, 1, 21, 31, 32, 300, 3984]) if (p + d < g.index.byteLength) lens.add(p + d);
      if (!g.segs) for (const n of lens) await c.guard("cut", { data: g.name, n }, () => cut(c, g, n));
      if (g.name === "fields 5 mix 0") await damaged(c, g);
    }
  }
  await collecting(c);
}

check({
  id: "C06",
  run,
  rule: "file headers and header entries over magnitude grids, types and names, with every truncation; indexes of 0 to the bound's number of fields, every short sequence of value types of a field, CSV files, search fields; every field and type located; the index cut at every length of its header pages; unknown versions and formats; header pages in freed pages before earlier ones and in files of several GiB",
  assumptions: ["numbers up to 2^53", "a cut file answers ranges with the bytes it still has and refuses those past its end"],
});
