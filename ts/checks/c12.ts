import { bundle, check, Ctx, GenCase, memResolver } from "../lib/core";
import { init } from "repo/index";

// What a client sees of an index that is being extended: after every single write to the
// index file the file is opened anew and queried.

type Rec = { v: any; old: boolean };

type State = { g: GenCase; buf: Uint8Array; k: number; whole: boolean; recs: Map<number, Rec>; olds: number[] };

const json = (x: any) => JSON.stringify(x);

async function rowsOf(it: AsyncIterable<any>, max: number): Promise<any[]> {
  const out: any[] = [];
  for await (const r of it) {
    out.push(r);
    if (out.length > max) throw new Error(`more than ${max} rows`);
  }
  return out;
}

// one question to the index; wanted says of a record whether it belongs to the answer
async function ask(c: Ctx, s: State, what: any, start: (db: any) => AsyncIterable<any>, wanted: (v: any) => boolean, order?: (a: any, b: any) => number, search?: boolean) {
  const cs = { index: s.g.name, "writes done": s.k, ...what };
  const image = s.buf.slice().buffer;
  let rows: any[];
  c.trans();
  c.state(json(cs));
  await c.guard("moment", cs, async () => {
    try {
      const db: any = await init(memResolver(s.g.data), memResolver(image));
      rows = await rowsOf(start(db), s.recs.size);
    } catch (e: any) {
      if (s.whole && s.olds.length > 0) c.violate("refused", cs, `the client gives up: ${e?.message ?? e}`);
      else c.note("states between adding and describing a field in which the client reports an error", (c.notes["states between adding and describing a field in which the client reports an error"] ?? 0) + 1);
      return;
    }
    if (search) rows = rows.map((r) => (typeof r.data === "string" ? JSON.parse(r.data) : r.data));
    const seen = new Set<number>();
    for (let i = 0; i < rows.length; i++) {
      const r = s.recs.get(rows[i].id);
      if (!r || json(r.v) !== json(rows[i])) return c.violate("foreign", cs, `row ${i} is no record of the data: ${json(rows[i])}`);
      if (seen.has(rows[i].id)) return c.violate("twice", cs, `row ${i} comes twice: ${json(rows[i])}`);
      seen.add(rows[i].id);
      if (!wanted(r.v)) return c.violate("unwanted", cs, `row ${i} does not belong here: ${json(rows[i])}`);
      if (order && i > 0 && order(rows[i - 1], rows[i]) > 0) return c.violate("order", cs, `rows ${i - 1} and ${i} are out of order: ${json(rows[i - 1])} ${json(rows[i])}`);
    }
    for (const id of s.olds) if (!seen.has(id) && wanted(s.recs.get(id)!.v)) return c.violate("lost", cs, `the record of id ${id}, indexed before, is not found`);
  });
}

async function state(c: Ctx, s: State) {
  const from = s.g.extra.from;
  const ids = [...s.recs.keys()].sort((a, b) => a - b);
  const q = (key: string, operation: string, value: any, dir: string) => (db: any) => db.query({ where: [{ key, operation, value }], orderBy: [{ key, direction: dir }] });
  const up = (a: any, b: any) => a.id - b.id;
  await ask(c, s, { query: `id >= ${from}` }, q("id", ">=", from, "ASC"), (v) => v.id >= from, up);
  if (from > 0) {
    // of a large index only the part that changes is read
    for (const id of [0, ids[ids.length >> 1], ...s.olds.slice(-3)]) await ask(c, s, { query: `id == ${id}` }, q("id", "==", id, "ASC"), (v) => v.id === id);
    return;
  }
  const top = ids[ids.length - 1];
  await ask(c, s, { query: `id <= ${top} descending` }, q("id", "<=", top, "DESC"), () => true, (a, b) => up(b, a));
  const n = s.olds.length;
  for (const i of new Set([0, n >> 2, n >> 1, n - 1])) if (i >= 0 && i < n) await ask(c, s, { query: `id == ${s.olds[i]}` }, q("id", "==", s.olds[i], "ASC"), (v) => v.id === s.olds[i]);
  const some = s.recs.get(ids[0])!.v;
  const text = (a: any, b: any) => (a.s < b.s ? -1 : a.s > b.s ? 1 : 0);
  if ("s" in some) await ask(c, s, { query: `s >= ""` }, q("s", ">=", "", "ASC"), () => true, text);
  if ("b" in some) await ask(c, s, { query: "b == true" }, q("b", "==", true, "ASC"), (v) => v.b === true);
  if ("z" in some) await ask(c, s, { query: "z == null" }, q("z", "==", null, "ASC"), () => true);
  if ("t" in some)
    for (const like of ["common", "w0", "w4", "on"]) {
      // a record is found if it has any of the tokens of the text
      const toks = new Set<string>();
      for (let i = 0; i < like.length; i++) toks.add(like.slice(i, i + 1)).add(like.slice(i, i + 2));
      await ask(c, s, { search: like }, (db) => db.search("t", like), (v) => v.t.split(" ").some((w: string) => [...toks].some((t) => w.includes(t))), undefined, true);
    }
}

async function run(c: Ctx) {
  for (const g of bundle()) {
    if (g.error) {
      if (c.shard === 0) c.violate("not-indexed", { data: g.name }, `the indexer refuses the data: ${g.error}`);
      continue;
    }
    const recs = new Map<number, Rec>();
    const olds: number[] = [];
    for (const line of Buffer.from(g.data).toString("utf8").split("\n")) {
      if (!line) continue;
      const v = JSON.parse(line);
      const old = recs.size < g.extra.base;
      recs.set(v.id, { v, old });
      if (old) olds.push(v.id);
    }
    const all = new Uint8Array(g.index);
    const view = new DataView(g.index);
    let buf = all.slice(0, g.extra.image);
    const whole: string = g.extra.whole;
    for (let p = g.extra.image, k = 0; ; k++) {
      if (c.mine()) {
        if (c.tooMany() || c.expired("states")) return;
        c.at(`${g.name} after ${k} writes`);
        await state(c, { g, buf, k, whole: whole[k] === "y", recs, olds });
        c.trace();
      }
      if (p >= all.length) {
        if (k + 1 !== whole.length) throw new Error("the log of writes is cut off");
        break;
      }
      const off = Number(view.getBigUint64(p, true));
      const len = view.getUint32(p + 8, true);
      if (off + len > buf.length) {
        const more = new Uint8Array(off + len);
        more.set(buf);
        buf = more;
      }
      buf.set(all.subarray(p + 12, p + 12 + len), off);
      p += 12 + len;
    }
    if (c.shard === 0 && c.samples.length < 3) c.sample({ index: g.name, writes: whole.length - 1 });
  }
}

check({
  id: "C12",
  run,
  rule: "indexes extended by the real indexer, every write to the index file logged: after each of them the file is opened by a client and queried through every kind of field, both ways, and searched; what was indexed before must be there, everything else must be a record of the data, once and in order; splits of leaves and roots up to the third level, header list growing over pages",
  assumptions: ["a single write to the index file is seen as a whole", "between adding and describing a field of the header list an error is a legal answer"],
});
