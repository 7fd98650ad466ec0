import { bundle, check, Ctx, GenCase, memResolver, settle } from "../lib/core";
import { init } from "repo/index";

// ---- what a client is asked to do ------------------------------------------------

type Task = { name: string; rows: (db: any) => AsyncIterable<any>; stop?: number };
type Out = { rows: string[]; done: boolean; err?: string };

async function* once(p: () => Promise<any>): AsyncGenerator<any> {
  yield await p();
}

function where(key: string, operation: string, value: any, direction?: string, limit?: number): Task {
  return {
    name: `${key} ${operation} ${value}${direction ? " " + direction : ""}${limit !== undefined ? " limit " + limit : ""}`,
    rows: (db) => db.query({ where: [{ key, operation, value }], orderBy: direction ? [{ key, direction }] : undefined, limit }),
  };
}

function stopped(t: Task, n: number): Task {
  return { ...t, name: `${t.name} stopped after ${n}`, stop: n };
}

const fieldsTask: Task = { name: "fields", rows: (db) => once(() => db.fields()) };
const search = (like: string): Task => ({ name: `search ${like}`, rows: (db) => db.search("t", like) });
const builder: Task = { name: "builder", rows: (db) => db.where("f", ">=", 1).orderBy("f", "DESC").select(["id"]).limit(2).get() };

function menu(kind: string): Task[] {
  switch (kind) {
    case "tiny":
      return [
        where("f", ">=", 0),
        where("s", "==", "x"),
        where("s", "<=", "y", "DESC"),
        where("f", "<", 9, "DESC", 1),
        stopped(where("f", ">=", 1), 1),
        search("ab"),
        search("b"),
        fieldsTask,
        builder,
        where("nope", "==", 1),
      ];
    case "two":
      return [where("f", "==", 500), where("s", ">=", "v1190"), where("f", ">", 1190, "DESC"), where("s", "<", "v0004", "DESC"), stopped(where("f", ">=", 478), 3), stopped(search("cab"), 2), fieldsTask];
    default:
      return [fieldsTask, where("f19", "==", 20), where("f0", ">=", 0), where("f14", "<", 100), where("f15", "<", 100, "DESC")];
  }
}

async function follow(t: Task, db: any, out: Out) {
  try {
    for await (const r of t.rows(db)) {
      out.rows.push(JSON.stringify(r, (k, v) => (k === "score" ? Number(v.toFixed(9)) : v)));
      if (t.stop !== undefined && out.rows.length >= t.stop) break;
      if (out.rows.length > 10000) throw new Error("endless result");
    }
  } catch (e: any) {
    out.err = String(e && e.message);
  }
  out.done = true;
}

// ---- the network under control -----------------------------------------------------

type Pending = { what: string; answer: () => void; fail: () => void };

class Net {
  pending: Pending[] = [];
  served = 0;
  resolver(name: string, b: ArrayBuffer) {
    const direct = memResolver(b);
    return (ranges: any[]): Promise<any> =>
      new Promise((resolve, reject) => {
        const rs = ranges.map((r) => ({ ...r }));
        this.pending.push({
          what: `${name} ${rs.map((r) => `${r.start}-${r.end}`).join(",")}`.slice(0, 60),
          answer: () => direct(rs).then(resolve, reject),
          fail: () => reject(new Error("network")),
        });
      });
  }
}

type World = { name: string; data: ArrayBuffer; index: ArrayBuffer };
const solo = new Map<string, { rows: string[]; err?: string }>();

// the result of a task when nothing else happens
async function expected(w: World, t: Task) {
  const key = w.name + "|" + t.name;
  let r = solo.get(key);
  if (!r) {
    const out: Out = { rows: [], done: false };
    await follow(t, await init(memResolver(w.data), memResolver(w.index)), out);
    solo.set(key, (r = { rows: out.rows, err: out.err }));
  }
  return r;
}

// one execution: tasks start in order, answers arrive as chosen.  failing: number of the
// request (counted as answered) that fails, or -1
async function execute(c: Ctx, w: World, tasks: Task[], choose: (n: number) => number, failing: number[], path: () => any, late: boolean): Promise<number> {
  const net = new Net();
  const db: any = await init(net.resolver("data", w.data), net.resolver("index", w.index));
  const outs: Out[] = [];
  const spans: { from: number; to: number }[] = [];
  let failedAt: number[] = [];
  let clock = 0;
  const cs = () => ({ data: w.name, tasks: tasks.map((t) => t.name), failing, schedule: path() });
  let next = 0;
  const start = (t: Task) => {
    const o: Out = { rows: [], done: false };
    const s = { from: clock, to: Infinity };
    outs.push(o);
    spans.push(s);
    follow(t, db, o).then(() => (s.to = clock));
  };
  if (!late) while (next < tasks.length) start(tasks[next++]);
  for (;;) {
    await settle();
    const n = (next < tasks.length ? 1 : 0) + net.pending.length;
    if (n === 0) break;
    clock++;
    let k = n === 1 ? 0 : choose(n);
    c.trans();
    if (next < tasks.length) {
      if (k === 0) {
        start(tasks[next++]);
        continue;
      }
      k--;
    }
    const [p] = net.pending.splice(k, 1);
    if (failing.includes(net.served++)) {
      failedAt.push(clock);
      p.fail();
    } else p.answer();
    if (clock > 20000) {
      c.violate("endless", cs(), "requests without end");
      return net.served;
    }
  }
  const served = net.served;
  for (let i = 0; i < tasks.length; i++) await verdict(c, "concurrent", cs, w, tasks[i], outs[i], failedAt.some((f) => f >= spans[i].from && f <= spans[i].to));
  // once more, with nothing in the way
  if (failing.length > 0 || tasks.length === 1) {
    for (const t of tasks) {
      const o: Out = { rows: [], done: false };
      follow(t, db, o);
      for (;;) {
        await settle();
        const p = net.pending.shift();
        if (!p) break;
        c.trans();
        p.answer();
      }
      await verdict(c, "again", cs, w, t, o, false);
    }
  }
  return served;
}

async function verdict(c: Ctx, key: string, cs: () => any, w: World, t: Task, o: Out, mayFail: boolean) {
  const want = await expected(w, t);
  if (!o || !o.done) return c.violate(key + "-stuck", cs(), `"${t.name}" never ends although every request has been answered`);
  if (o.err !== undefined && o.err !== want.err) {
    if (!mayFail) return c.violate(key + "-fails", cs(), `"${t.name}" fails: ${o.err}`);
  } else if (want.err !== undefined && o.err === undefined) return c.violate(key, cs(), `"${t.name}" succeeds, alone it fails: ${want.err}`);
  for (let i = 0; i < o.rows.length; i++) if (o.rows[i] !== want.rows[i]) return c.violate(key, cs(), `"${t.name}" returns ${o.rows[i].slice(0, 100)} as row ${i}, alone it returns ${String(want.rows[i]).slice(0, 100)}`);
  if (o.err === undefined && o.rows.length !== want.rows.length) return c.violate(key, cs(), `"${t.name}" returns ${o.rows.length} rows, alone ${want.rows.length}`);
}

// depth-first enumeration of the choices with at most dev of them not the first
async function explore(c: Ctx, where: string, dev: number, run: (choose: (n: number) => number, path: () => any) => Promise<any>) {
  let prefix: number[] = [];
  for (;;) {
    if (c.tooMany() || c.expired("schedules")) return;
    const made: number[] = [],
      widths: number[] = [];
    await run(
      (n) => {
        const k = made.length < prefix.length ? prefix[made.length] : 0;
        made.push(k);
        widths.push(n);
        return k;
      },
      () => made.join(","),
    );
    c.add("schedules");
    c.state(where + ":" + made.join(","));
    let i = made.length - 1;
    let used = made.reduce((n, k) => n + (k > 0 ? 1 : 0), 0);
    for (; i >= 0; i--) {
      if (made[i] > 0) used--;
      // advancing here costs one deviation (or none more than it has already)
      if (made[i] + 1 < widths[i] && used + 1 <= dev) break;
    }
    if (i < 0) return;
    prefix = [...made.slice(0, i), made[i] + 1];
  }
}

async function concurrent(c: Ctx, w: World, tasks: Task[], dev: number, late: boolean) {
  const name = `${w.name} [${tasks.map((t) => t.name).join(" | ")}]${late ? " late" : ""}`;
  c.at(name);
  await explore(c, name, dev, (choose, path) => {
    c.tick();
    return execute(c, w, tasks, choose, [], path, late);
  });
  c.trace();
}

// every request failing in turn, under some orders of answering
async function failures(c: Ctx, w: World, tasks: Task[], dev: number, twice: boolean) {
  const name = `${w.name} [${tasks.map((t) => t.name).join(" | ")}] failing`;
  c.at(name);
  const n = await execute(c, w, tasks, () => 0, [], () => "", false);
  for (let k = 0; k < n; k++) {
    await explore(c, `${name} ${k}`, dev, (choose, path) => {
      c.tick();
      return execute(c, w, tasks, choose, [k], path, false);
    });
    c.add("failures");
    if (twice) for (let m = k + 1; m < Math.min(n, k + 4); m++) await execute(c, w, tasks, () => 0, [k, m], () => "", false);
  }
  c.trace();
}

// every way to stop early
async function stops(c: Ctx, w: World, t: Task, other: Task) {
  const want = await expected(w, t);
  for (let n = 0; n <= Math.min(want.rows.length, 6); n++) {
    const s: Task = n === 0 ? { name: t.name + " abandoned", rows: (db) => abandoned(t, db) } : stopped(t, n);
    for (const tasks of [
      [s, other],
      [other, s],
    ])
      await concurrent(c, w, tasks, 1, false);
  }
}

async function* abandoned(t: Task, db: any): AsyncGenerator<any> {
  const it = t.rows(db)[Symbol.asyncIterator]();
  void it; // created, never asked for anything
}

// the data file has grown, the index has not
async function grown(c: Ctx, g: GenCase) {
  const more = ['{"id":900,"f":3,"s":"x","t":"ab ab"}\n{"id":901,"f":"odd"}\n', '{"id":9', "\n\n\n", " ".repeat(10000)];
  for (const m of more) {
    const w: World = { name: g.name, data: new Uint8Array([...new Uint8Array(g.data), ...Buffer.from(m)]).buffer, index: g.index };
    for (const t of menu(g.kind)) {
      if (!c.mine()) continue;
      await c.guard("grown", { data: g.name, more: m, task: t.name }, async () => {
        const want = await expected({ name: g.name, data: g.data, index: g.index }, t);
        const o: Out = { rows: [], done: false };
        await follow(t, await init(memResolver(w.data), memResolver(w.index)), o);
        c.trans();
        if (JSON.stringify(o.rows) !== JSON.stringify(want.rows) || o.err !== want.err) c.violate("grown", { data: g.name, more: m, task: t.name }, `results differ once the data file has grown: ${JSON.stringify(o).slice(0, 300)}`);
        c.state(`grown ${g.name} ${t.name} ${m.length}`);
      });
    }
  }
}

async function run(c: Ctx) {
  Math.random = () => 0.3; // the order of search tokens is the subject of C08
  let where = "";
  process.on("unhandledRejection", (e: any) => {
    c.violate("unhandled", { during: where }, `a failure nobody can handle ends the process: ${e && e.message}`);
  });
  for (const g of bundle()) {
    if (g.error) {
      c.violate("not-indexed", g.name, `the indexer refuses the data: ${g.error}`);
      continue;
    }
    where = g.name;
    const w: World = { name: g.name, data: g.data, index: g.index };
    const tasks = menu(g.kind);
    for (const t of tasks) {
      const e = await expected(w, t);
      if (c.shard === 0 && e.err !== undefined && !t.name.startsWith("nope")) c.violate("alone", { data: g.name, task: t.name }, `"${t.name}" fails alone: ${e.err}`);
      if (c.shard === 0) c.sample({ data: g.name, task: t.name, rows: e.rows.length });
    }
    const small = g.kind !== "two";
    const all = small || c.thorough; // two levels cost much more per query
    for (const a of tasks)
      for (const b of tasks) {
        if (c.mine()) await c.guard("concurrent", [g.name, a.name, b.name], () => concurrent(c, w, [a, b], small ? c.bound(2, 4) : c.bound(1, 2), false));
        if (all && c.mine()) await c.guard("late", [g.name, a.name, b.name], () => concurrent(c, w, [a, b], c.bound(1, 2), true));
        if (all && c.mine()) await c.guard("failures", [g.name, a.name, b.name], () => failures(c, w, [a, b], small ? c.bound(1, 2) : c.bound(0, 1), c.thorough));
      }
    for (const a of tasks) {
      if (c.mine()) await c.guard("failures", [g.name, a.name], () => failures(c, w, [a], small ? 1 : c.bound(0, 1), true));
      if (all && c.mine()) await c.guard("stops", [g.name, a.name], () => stops(c, w, a, tasks[0]));
    }
    // three at once
    for (let i = 0; all && i < tasks.length; i++) {
      if (!c.mine()) continue;
      const three = [tasks[i], tasks[(i + 1) % tasks.length], tasks[(i + 3) % tasks.length]];
      await c.guard("three", three.map((t) => t.name), () => concurrent(c, w, three, c.bound(1, small ? 3 : 1), false));
    }
    await grown(c, g);
  }
}

check({
  id: "C02",
  run,
  rule: "every pair (and some triples) of a menu of queries on one client, with every order in which answers arrive that deviates from first-come first-served at most the bound's number of times, starting together or at any point of the other; every request failing in turn and the queries repeated; every early stop; a grown data file; results compared with those of each query alone",
  assumptions: ["files do not change otherwise", "a query may fail when a request fails while it runs"],
});
