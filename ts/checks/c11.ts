import { bundle, check, Ctx, GenCase, memResolver, settle } from "../lib/core";
import { init } from "repo/index";

// What a query may transfer.  The client of the unchanged tree needs the pages of the
// header list up to the field, one page per level of the tree and one per leaf walked on
// to; the bounds are about three times that, so that another way of walking the tree
// is no violation, but anything that grows with the size of the file is.

const PAGE = 4096;
const OPS = ["<", "<=", "==", ">=", ">"];

const pagesFor = (headers: number, rows: number) => 12 + 3 * Math.ceil(headers / 15) + Math.ceil(rows / 25);
// a page of keys stored by reference names at most this many bytes of the data
const KEYS_OF_A_PAGE = 20000;

type Meter = { ranges: { start: number; end: number }[]; bytes: number };

function metered(buf: ArrayBuffer, m: Meter) {
  return memResolver(buf, (rs) => {
    for (const r of rs) {
      m.ranges.push({ start: r.start, end: r.end });
      m.bytes += Math.min(r.end + 1, buf.byteLength) - r.start;
    }
  });
}

type Rec = { start: number; end: number; v: any };

function records(data: ArrayBuffer): { recs: Rec[]; at: Map<string, Rec>; longest: number } {
  const buf = Buffer.from(data);
  const recs: Rec[] = [];
  const at = new Map<string, Rec>();
  let longest = 0;
  for (let p = 0; p < buf.length; ) {
    const e = buf.indexOf(10, p);
    const r = { start: p, end: e - 1, v: JSON.parse(buf.toString("utf8", p, e)) };
    recs.push(r);
    at.set(JSON.stringify(r.v), r);
    longest = Math.max(longest, e - p);
    p = e + 1;
  }
  return { recs, at, longest };
}

type Way = { rows: number; byLimit: boolean };

// measure runs a query on a client of its own, and the same one again
async function measure(c: Ctx, g: GenCase, cs: any, at: Map<string, Rec>, longest: number, way: Way, headers: number, byReference: boolean, start: (db: any, limit?: number) => AsyncIterable<any>, unwrap: (row: any) => any, extraPages: number) {
  const di: Meter = { ranges: [], bytes: 0 };
  const ii: Meter = { ranges: [], bytes: 0 };
  await c.guard("query", cs, async () => {
    const db: any = await init(metered(g.data, di), metered(g.index, ii));
    for (const again of [false, true]) {
      di.bytes = ii.bytes = 0;
      di.ranges.length = ii.ranges.length = 0;
      let rows = 0,
        own = 0;
      for await (const row of start(db, way.byLimit ? way.rows : undefined)) {
        const v = unwrap(row);
        const r = at.get(JSON.stringify(typeof v === "string" ? JSON.parse(v) : v));
        if (!r) throw new Error(`not a record: ${JSON.stringify(v)}`);
        own += r.end - r.start + 1;
        rows++;
        if (!way.byLimit && rows >= way.rows) break;
        if (rows > 100000) throw new Error("endless result");
      }
      // nothing may go on in the background either
      await settle();
      await settle();
      c.trans();
      c.trace();
      c.state(JSON.stringify(cs) + again);
      const name = `${g.kind}${again ? "-again" : ""}`;
      const pages = pagesFor(headers, rows) + extraPages;
      if (ii.bytes > pages * PAGE) {
        c.violate(`index-${name}`, cs, `${ii.bytes} bytes of the index (of ${g.index.byteLength}) were fetched in ${ii.ranges.length} ranges for ${rows} rows, expected no more than ${pages} pages`);
        return;
      }
      const spare = 2048 + 3 * longest + (byReference ? pages * KEYS_OF_A_PAGE : 0);
      if (di.bytes > own + spare) {
        c.violate(`data-${name}`, cs, `${di.bytes} bytes of the data (of ${g.data.byteLength}) were fetched for ${rows} rows of ${own} bytes, expected no more than ${spare} besides`);
        return;
      }
      const most = (k: string, v: number) => c.note(k, Math.max(c.notes[k] ?? 0, v));
      most(`most index pages, ${g.kind}`, Math.ceil(ii.bytes / PAGE));
      if (!byReference) most(`most data bytes besides the rows, ${g.kind}`, di.bytes - own);
    }
  });
}

async function field(c: Ctx, g: GenCase) {
  const { recs, at, longest } = records(g.data);
  const n = recs.length;
  const headers = g.extra?.fields ?? 7;
  for (const f of g.extra?.fields ? ["id", g.extra.last] : ["id", "d", "s", "b", "z"]) {
    const vals = [...new Set(recs.map((r) => r.v[f]))].sort((a, b) => (a < b ? -1 : a > b ? 1 : 0));
    const probes: any[] = [0, 0.25, 0.5, 0.75, 1].map((x) => vals[Math.min(vals.length - 1, Math.floor(x * vals.length))]);
    if (f === "id") probes.push(vals[Math.floor(n / 2)] + 1, 2 * n + 5);
    if (f === "s") probes.push("", vals[Math.floor(n / 3)] + "!", "zzz");
    for (const value of new Set(probes))
      for (const op of OPS)
        for (const ord of ["ASC", "DESC"])
          for (const rows of [1, 2, 10, c.bound(60, 300)])
            for (const byLimit of [true, false]) {
              if (!c.mine()) continue;
              if (c.tooMany() || c.expired("queries")) return;
              const cs = { data: g.name, field: f, op, value, ord, rows, by: byLimit ? "limit" : "not asking for more" };
              c.at(JSON.stringify(cs));
              await measure(c, g, cs, at, longest, { rows, byLimit }, headers, f === "s",
                (db, limit) => db.query({ where: [{ key: f, operation: op, value }], orderBy: [{ key: f, direction: ord }], limit }), (row) => row, 0);
            }
  }
}

// a search has to read the places of every token of the text, and no record but those handed out
async function search(c: Ctx, g: GenCase) {
  const { recs, at, longest } = records(g.data);
  for (const like of ["bcd", "b", "cd", "so", "some", "many", "m", "nope"])
    for (const rows of [1, 2, 5]) {
      if (!c.mine()) continue;
      if (c.tooMany()) return;
      const cs = { data: g.name, like, rows };
      c.at(JSON.stringify(cs));
      // a leaf of the token tree holds far more than 50 places; tokens of one and two characters
      let places = 0;
      for (let i = 0; i < like.length; i++)
        for (const tok of new Set([like.slice(i, i + 1), like.slice(i, i + 2)]))
          for (const r of recs) for (let k = r.v.t.indexOf(tok); k >= 0; k = r.v.t.indexOf(tok, k + 1)) places++;
      await measure(c, g, cs, at, longest, { rows, byLimit: false }, 10, false, (db) => db.search("t", like), (r) => r.data, 12 * like.length + Math.ceil(places / 50));
    }
}

async function run(c: Ctx) {
  for (const g of bundle()) {
    if (g.error) {
      if (c.shard === 0) c.violate("not-indexed", { data: g.name }, `the indexer refuses the data: ${g.error}`);
      continue;
    }
    if (g.kind === "field") await field(c, g);
    else await search(c, g);
    if (c.shard === 0 && c.samples.length < 2) c.sample({ data: g.name, bytes: g.data.byteLength, index: g.index.byteLength });
  }
}

check({
  id: "C11",
  run,
  rule: "indexes of 1 to 12000 (40000) records built by the real indexer in several orders and of up to 100 fields; every operator and direction, values at the ends, quarters and between, 1 to 60 (300) rows asked for by limit or by stopping, each on a client of its own and again on the same one; every byte requested of index and data is counted and held against a bound that does not depend on the number of records; searches for rare and common words",
  assumptions: ["bounds are about three times what the client needs today"],
});
