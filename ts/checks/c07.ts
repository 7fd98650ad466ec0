import { check, Ctx } from "../lib/core";
import { QueryBuilder } from "repo/db/query-builder";
import { validateQuery, validateSearch } from "repo/db/query-validation";
import { FieldType, Database } from "repo/db/database";

// ------------------------------------------------------------------ builders

type Model = { where: any[]; orderBy: any[]; select?: string[]; limit?: number };

const norm = (q: any) =>
  JSON.stringify({ where: q.where ?? [], orderBy: q.orderBy ?? [], select: q.select ?? null, limit: q.limit ?? null });

type Call = { name: string; real: (b: any) => any; model: (m: Model) => Model };

function calls(): Call[] {
  const out: Call[] = [];
  for (const [k, op, v] of [
    ["a", "<", 1],
    ["b", "==", "x"],
    ["a", ">=", null],
  ] as any[]) {
    out.push({ name: `where ${k}${op}${v}`, real: (b) => b.where(k, op, v), model: (m) => ({ ...m, where: [...m.where, { key: k, operation: op, value: v }] }) });
  }
  for (const [k, d] of [
    ["a", "ASC"],
    ["b", "DESC"],
  ] as any[]) {
    out.push({ name: `orderBy ${k} ${d}`, real: (b) => b.orderBy(k, d), model: (m) => ({ ...m, orderBy: [...m.orderBy, { key: k, direction: d }] }) });
  }
  for (const s of [["a"], ["b", "c"]]) {
    out.push({
      name: `select ${s}`,
      real: (b) => {
        // the caller goes on using its array
        const mine = s.slice();
        const r = b.select(mine);
        mine.push("later");
        mine[0] = "changed";
        return r;
      },
      model: (m) => ({ ...m, select: s }),
    });
  }
  for (const n of [5, 1]) out.push({ name: `limit ${n}`, real: (b) => b.limit(n), model: (m) => ({ ...m, limit: n }) });
  return out;
}

async function builders(c: Ctx) {
  const menu = calls();
  const depth = c.bound(4, 5);
  const passed: any[] = [];
  const fake: any = { query: (q: any) => (passed.push(q), "result") };
  type Node = { b: any; m: Model };
  const empty: Model = { where: [], orderBy: [] };

  const verify = (nodes: Node[], trace: string[]) => {
    for (let i = 0; i < nodes.length; i++) {
      const got = norm(nodes[i].b.toQuery()),
        want = norm(nodes[i].m);
      if (got !== want) {
        c.violate("builder", { calls: trace, builder: i }, `query ${i} after ${trace.join("; ")} is ${got}, expected ${want}`);
        return;
      }
    }
  };
  const rec = (nodes: Node[], trace: string[]) => {
    if (trace.length === depth || c.tooMany()) return;
    for (let base = 0; base < nodes.length; base++) {
      for (const call of menu) {
        if (trace.length === 1 && !c.mine()) continue;
        const t = [...trace, `${base}.${call.name}`];
        let n: Node;
        try {
          n = { b: call.real(nodes[base].b), m: call.model(nodes[base].m) };
        } catch (e: any) {
          c.violate("builder", { calls: t }, `call fails: ${e.message}`);
          continue;
        }
        const next = [...nodes, n];
        c.trans();
        c.state(norm(n.m) + "/" + nodes.length);
        verify(next, t);
        rec(next, t);
        if (trace.length === depth - 1) {
          c.trace();
          // after everything, what is handed out may be changed by its owner
          if (base === 0) {
            for (const x of next) {
              const q = x.b.toQuery();
              q.where.push({ key: "zz", operation: "<", value: 0 });
              if (q.where[0]) q.where[0].key = "zz";
              if (q.orderBy && q.orderBy[0]) q.orderBy[0].direction = "zz";
              if (q.orderBy) q.orderBy.push({ key: "zz" });
              if (q.select) q.select.push("zz");
              q.limit = 99;
            }
            verify(next, [...t, "owners change the results of toQuery()"]);
            // running hands over the same clauses
            passed.length = 0;
            for (const x of next) x.b.get();
            passed.forEach((q, i) => {
              if (norm(q) !== norm(next[i].m)) c.violate("builder-get", { calls: t, builder: i }, `get() runs ${norm(q)}, expected ${norm(next[i].m)}`);
            });
            if (passed.length !== next.length) c.violate("builder-get", { calls: t }, "get() does not run the query");
            verify(next, [...t, "get()"]);
          }
        }
      }
    }
    c.tick();
  };
  await c.guard("builder", "builder calls", () => {
    const root = { b: new QueryBuilder<any>(fake), m: empty };
    verify([root], []);
    rec([root], []);
    // starting from the database
    const db: any = Database.forDataFileAndIndexFile({} as any, {} as any);
    for (const op of ["<", "<=", "==", ">=", ">"]) {
      const q1 = db.where("k", op, 3);
      const q2 = q1.where("k", op, 4);
      if (norm(q1.toQuery()) !== norm({ where: [{ key: "k", operation: op, value: 3 }] })) c.violate("database-where", op, "where() of the database loses its clause");
      if (norm(q2.toQuery()) !== norm({ where: [{ key: "k", operation: op, value: 3 }, { key: "k", operation: op, value: 4 }] }))
        c.violate("database-where", op, "where() of the database loses its clause");
    }
  });
}

// ---------------------------------------------------------------- validation

const F = FieldType;
const headers = () => [
  { fieldName: "f", fieldTypes: [F.Float64] },
  { fieldName: "i", fieldTypes: [F.Int64] },
  { fieldName: "u", fieldTypes: [F.Uint64] },
  { fieldName: "s", fieldTypes: [F.String] },
  { fieldName: "b", fieldTypes: [F.Boolean] },
  { fieldName: "n", fieldTypes: [F.Null] },
  { fieldName: "sn", fieldTypes: [F.Null, F.String] },
  { fieldName: "bf", fieldTypes: [F.Float64, F.Boolean] },
  { fieldName: "o", fieldTypes: [F.Object] },
  { fieldName: "a", fieldTypes: [F.Array] },
  { fieldName: "t", fieldTypes: [F.String, F.Unigram, F.Bigram, F.Trigram] },
  { fieldName: "t2", fieldTypes: [F.Trigram, F.Null, F.Unigram, F.String, F.Bigram, F.Float64] },
  { fieldName: "p1", fieldTypes: [F.String, F.Unigram] },
  { fieldName: "p2", fieldTypes: [F.String, F.Unigram, F.Bigram] },
  { fieldName: "p3", fieldTypes: [F.Unigram, F.Trigram, F.String] },
  { fieldName: "p4", fieldTypes: [F.Bigram, F.Trigram] },
  { fieldName: "", fieldTypes: [F.String] },
  { fieldName: "x.y", fieldTypes: [F.Float64, F.String] },
  { fieldName: " sp", fieldTypes: [F.Float64, F.String] },
  { fieldName: "\u00e9", fieldTypes: [F.Boolean, F.String] },
];

function typesOf(v: any): FieldType[] {
  if (v === null) return [F.Null];
  switch (typeof v) {
    case "number":
    case "bigint":
      return [F.Float64, F.Int64, F.Uint64];
    case "string":
      return [F.String];
    case "boolean":
      return [F.Boolean];
  }
  return [];
}

function nodeValid(n: any): boolean {
  if (!["<", "<=", "==", ">=", ">"].includes(n.operation)) return false;
  const h = headers().find((h) => h.fieldName === n.key);
  if (!h) return false;
  return typesOf(n.value).some((t) => h.fieldTypes.includes(t));
}

function accepts(f: () => void): boolean {
  try {
    f();
    return true;
  } catch {
    return false;
  }
}

const show = (q: any) =>
  JSON.stringify(q, (_k, v) => (v === undefined ? "<undefined>" : typeof v === "bigint" ? `${v}n` : typeof v === "function" || typeof v === "symbol" ? `<${typeof v}>` : Number.isNaN(v) ? "<NaN>" : v));

async function validation(c: Ctx) {
  const hs = headers();
  const snapshot = JSON.stringify(hs);
  const keys: any[] = [...hs.map((h) => h.fieldName), "zzz", "F", "constructor", "__proto__", "x", "sp", "e\u0301", "\u00c9", " f", "f ", undefined, 5];
  const ops: any[] = ["<", "<=", "==", ">=", ">", "!=", "=", "", "=>", "===", undefined, null];
  const values: any[] = [1, -0.5, NaN, 1n, "x", "", true, false, null, undefined, {}, [], ["f"], () => 0, Symbol("s")];
  const dirs = ["ASC", "DESC", "asc", "", undefined, "ASCENDING"];
  const orders = (key: any): [any, boolean][] => {
    const out: [any, boolean][] = [[undefined, true]];
    for (const d of dirs) {
      out.push([[{ key, direction: d }], d === "ASC" || d === "DESC"]);
      out.push([[{ key: key === "f" ? "s" : "f", direction: d }], false]);
    }
    for (const other of [...keys, "zzz", null, 0]) out.push([[{ key: other, direction: "ASC" }], other === key]);
    out.push([[{ direction: "DESC" }], key === undefined]);
    out.push([[], false], [{ key, direction: "ASC" }, false], ["ASC", false]);
    // the first one counts
    const other = key === "f" ? "s" : "f";
    out.push([[{ key: other, direction: "ASC" }, { key, direction: "ASC" }], false]);
    out.push([[{ key, direction: "up" }, { key, direction: "ASC" }], false]);
    return out;
  };
  const selects: [any, boolean][] = [
    [undefined, true],
    [[], false],
    ["f", false],
    [{ length: 1, 0: "f" }, false],
    [["f"], true],
    [["zzz"], false],
    [["f", "s", "o", ""], true],
    [["f", "zzz"], false],
    [["zzz", "f"], false],
    [["constructor"], false],
    [["x.y", "x.y"], true],
    [["x"], false],
    [[""], true],
    [["__proto__"], false],
    [[undefined], false],
    [["f", undefined, "s"], false],
    [["sp"], false],
    [["e\u0301"], false],
    [[" sp", "\u00e9"], true],
  ];
  const tell = (key: string, q: any, want: boolean) => {
    const got = accepts(() => validateQuery(q, hs as any));
    c.trans();
    c.state(show(q));
    if (got !== want) c.violate(key, show(q), `${got ? "accepted" : "refused"}: ${show(q)}`);
    if (JSON.stringify(hs) !== snapshot) c.violate(key + "-headers", show(q), "validation changes the headers");
  };
  for (const key of keys) {
    for (const operation of ops) {
      if (!c.mine()) continue;
      c.at("validation " + show({ key, operation }));
      for (const value of values) {
        const node = { key, operation, value };
        const okNode = nodeValid(node);
        for (const [orderBy, okOrder] of orders(key)) {
          for (const [select, okSelect] of selects) {
            tell("validate", { where: [node], orderBy, select }, okNode && okOrder && okSelect);
            c.trace();
          }
        }
      }
    }
  }
  // two clauses: each one counts
  const few: any[] = [];
  for (const key of ["f", "s", "sn", "zzz"]) for (const operation of ["<", "==", "!="]) for (const value of [1, "x", null, {}]) few.push({ key, operation, value });
  for (const a of few) {
    if (!c.mine()) continue;
    for (const b of few) {
      tell("validate-two", { where: [a, b] }, nodeValid(a) && nodeValid(b));
      tell("validate-two", { where: [a, b], orderBy: [{ key: a.key, direction: "DESC" }] }, nodeValid(a) && nodeValid(b));
    }
  }
  if (c.shard === 0) {
    tell("validate-none", { where: [] }, false);
    tell("validate-none", { where: { key: "f", operation: "<", value: 1 } }, false);
    tell("validate-none", { where: [], select: ["f"] }, false);
  }
  // search
  const full = (k: any) => k === "t" || k === "t2";
  const nums = [0, 1, 2, 3, 4, -1, 1.5, 2.0000001, 0.5, 3.5, NaN, Infinity, -Infinity, 10];
  for (const key of keys) {
    for (const minGram of [undefined, ...nums]) {
      for (const maxGram of nums) {
        if (!c.mine()) continue;
        const config = minGram === undefined ? undefined : { minGram, maxGram };
        const okGram = minGram === undefined || (Number.isInteger(minGram) && Number.isInteger(maxGram) && minGram >= 1 && minGram <= maxGram && maxGram <= 3);
        const want = full(key) && okGram;
        const mk = (): any => ({ key, like: "abc", ...(config ? { config: { ...config } } : {}) });
        const got = accepts(() => validateSearch(mk(), hs as any));
        c.trans();
        c.state(show(mk()));
        if (got !== want) c.violate("validate-search", show(mk()), `search ${got ? "accepted" : "refused"}: ${show(mk())}`);
        tell("validate-search-query", { search: mk() }, want);
        tell("validate-search-where", { search: mk(), where: [{ key: "s", operation: "<", value: "x" }] }, want);
        tell("validate-search-where", { search: mk(), where: [{ key: "s", operation: "<", value: 1 }] }, false);
      }
    }
  }
}

async function run(c: Ctx) {
  await builders(c);
  await c.guard("validation", "validation", () => validation(c));
}

check({
  id: "C07",
  run,
  rule: "every tree of builder calls up to the depth (each call on any builder made so far, with nine different clauses), all builders compared with a model after every call and once more after their owners changed everything handed out; every combination of key, operator, value, ordering and selection from the menus, every pair of clauses, every search configuration",
  assumptions: ["queries without any clause and orderings after the first are not judged"],
});
