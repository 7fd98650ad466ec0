import { bundle, check, Ctx, GenCase, dataResolver, indexResolver } from "../lib/core";
import { init } from "repo/index";

// ---- reference ----------------------------------------------------------------

function tokens(text: string, g: number): string[] {
  const out: string[] = [];
  for (const word of text.normalize("NFKD").replace(/[^\x00-\x7f]/gu, "").split(/[\t-\r ]+/)) {
    const s = word.replace(/[^a-zA-Z0-9]/g, "").toLowerCase();
    for (let i = 0; i + g <= s.length; i++) out.push(s.slice(i, i + g));
  }
  return out;
}

class Corpus {
  lines: string[];
  counts = new Map<string, Map<string, number>[]>(); // field -> per record: "g:token" -> occurrences
  constructor(data: ArrayBuffer) {
    this.lines = Buffer.from(data)
      .toString("utf8")
      .split("\n")
      .filter((l) => l !== "");
  }
  of(field: string): Map<string, number>[] {
    let r = this.counts.get(field);
    if (r) return r;
    r = this.lines.map((l) => {
      const v = JSON.parse(l)[field];
      const m = new Map<string, number>();
      if (typeof v === "string") for (let g = 1; g <= 3; g++) for (const t of tokens(v, g)) m.set(g + ":" + t, (m.get(g + ":" + t) ?? 0) + 1);
      return m;
    });
    this.counts.set(field, r);
    return r;
  }
  search(field: string, like: string, min: number, max: number): Map<string, number> {
    const recs = this.of(field);
    const n = this.lines.length;
    const score = new Map<string, number>();
    for (let g = min; g <= max; g++)
      for (const t of tokens(like, g)) {
        const key = g + ":" + t;
        const nt = recs.filter((m) => m.has(key)).length;
        const idf = Math.log((n - nt + 0.5) / (nt + 0.5));
        recs.forEach((m, i) => {
          const tf = m.get(key);
          if (tf) score.set(this.lines[i], (score.get(this.lines[i]) ?? 0) + (idf * (tf * 2.2)) / (tf + 1.2));
        });
      }
    return score;
  }
}

function judge(got: { data: string; score: number }[], want: Map<string, number>, limit?: number): string | null {
  const total = limit === undefined ? want.size : Math.min(limit, want.size);
  const seen = new Set<string>();
  let prev = Infinity;
  for (const { data, score } of got) {
    if (seen.has(data)) return `record ${data.slice(0, 80)} is returned twice`;
    seen.add(data);
    const w = want.get(data);
    if (w === undefined) return `record ${data.slice(0, 80)} is returned but has no token of the query`;
    if (!(Math.abs(w - score) <= 1e-9 * Math.max(1, Math.abs(w)))) return `record ${data.slice(0, 80)} has the score ${score}, expected ${w}`;
    if (score > prev) return `score ${score} comes after ${prev}`;
    prev = score;
  }
  if (got.length !== total) return `${got.length} records, expected ${total}`;
  // with a limit none of those left out may be better
  for (const [d, w] of want) if (!seen.has(d) && got.length > 0 && w > prev + 1e-9) return `record ${d.slice(0, 80)} with score ${w} is left out`;
  return null;
}

// ---- controlled shuffling -----------------------------------------------------------

// choices makes Math.random answer so that floor(random*(i+1)) is the given number
let queue: number[] = [];
let asked = 0;
const real = Math.random;

function controlled(): number {
  asked++;
  return queue.length > 0 ? queue.shift()! : 0;
}

// the draws of a Fisher-Yates shuffle of n elements: every sequence of choices
function* draws(n: number, all: boolean): Generator<number[]> {
  if (n < 2) {
    yield [];
    return;
  }
  if (!all) {
    // a few fixed ones
    for (const f of [0, 0.999999, 0.5, 0.25]) yield new Array(n - 1).fill(f);
    return;
  }
  const idx: number[] = [];
  for (let i = n - 1; i > 0; i--) idx.push(i + 1);
  const w = new Array(idx.length).fill(0);
  while (true) {
    yield w.map((k, i) => (k + 0.5) / idx[i]);
    let i = idx.length - 1;
    while (i >= 0 && w[i] === idx[i] - 1) w[i--] = 0;
    if (i < 0) return;
    w[i]++;
  }
}

async function receive(gen: AsyncIterable<any>): Promise<{ data: string; score: number }[]> {
  const out: { data: string; score: number }[] = [];
  for await (const { data, score } of gen) {
    out.push({ data: data as string, score });
    if (out.length > 100000) throw new Error("endless result");
  }
  return out;
}

const CONFIGS: (undefined | { minGram: number; maxGram: number })[] = [undefined];
for (let a = 1; a <= 3; a++) for (let b = a; b <= 3; b++) CONFIGS.push({ minGram: a, maxGram: b });

// all on one client, the fields in turn
async function searches(c: Ctx, g: GenCase, fields: string[], likes: string[], configs: typeof CONFIGS, maxAll: number) {
  const corpus = new Corpus(g.data);
  const db: any = await init(dataResolver(g), indexResolver(g));
  for (const like of likes)
    for (const config of configs)
      for (const field of fields) {
      const { minGram, maxGram } = config ?? { minGram: 1, maxGram: 2 };
      const want = corpus.search(field, like, minGram, maxGram);
      let n = 0;
      for (let k = minGram; k <= maxGram; k++) n += tokens(like, k).length;
      let run = 0;
      for (const d of draws(n, n <= maxAll)) {
        if (c.tooMany()) return;
        const cs = { data: g.name, text: g.data.byteLength < 300 ? Buffer.from(g.data).toString() : undefined, field, like, config, draws: d };
        await c.guard(g.kind, cs, async () => {
          for (const style of run === 0 ? [0, 1, 2] : [run % 2]) {
            queue = d.slice();
            let limit: number | undefined;
            let gen: AsyncIterable<any>;
            if (style === 0) gen = db.search(field, like, config);
            else if (style === 1) gen = db.query({ search: { key: field, like, config: config ? { ...config } : undefined } });
            else gen = db.query({ search: { key: field, like, config: config ? { ...config } : undefined }, limit: (limit = Math.max(1, want.size - 1)) });
            const got = await receive(gen);
            c.trans();
            const bad = judge(got, want, limit);
            if (bad) c.violate(g.kind, cs, bad);
          }
        });
        run++;
        c.add("token orders");
      }
      c.state(JSON.stringify([g.name, field, like, config]));
    }
}

async function refused(c: Ctx, g: GenCase, fields: string[]) {
  for (const field of fields)
    for (const config of CONFIGS) {
      const db: any = await init(dataResolver(g), indexResolver(g));
      let rows: any[] | null = null;
      c.trans();
      try {
        rows = await receive(db.search(field, "a", config));
      } catch {}
      if (rows !== null) c.violate("refused", { data: g.name, field, config }, `searching the field "${field}", which cannot be searched, returns ${rows.length} records`);
    }
}

async function run(c: Ctx) {
  Math.random = controlled;
  const small = ["", "a", "ab", "b a", "abb", "ab ab", "zz", "AB", "- a-b", "bab"];
  const words = ["cat", "the cat", "dog dog", "CAT", "concat", "12", "nothing qq", "naive", "", "ca-t", "a  \t the", "dogma"];
  const large = ["abc", "cab", "x1", "bcd", "z", "abc cab", "zzzz"];
  for (const g of bundle((_i, m) => (m.kind === "small" ? c.mine() : true))) {
    if (c.tooMany() || c.expired("cases")) break;
    if (g.error) {
      c.violate("not-indexed", { data: g.name }, `the indexer refuses the data: ${g.error}`);
      continue;
    }
    if (g.kind === "small") {
      if (c.samples.length < 1) c.sample({ name: g.name, text: Buffer.from(g.data).toString(), queries: small });
      await searches(c, g, ["t"], small, CONFIGS, c.bound(3, 5));
      await refused(c, g, ["id", "nope", ""]);
      c.trace();
    } else {
      const likes = (g.kind === "words" ? words : large).filter(() => c.mine());
      await searches(c, g, g.kind === "words" ? ["t", "u"] : ["t"], likes, CONFIGS, c.bound(g.kind === "words" && !/far|often/.test(g.name) ? 4 : 2, 5));
      if (likes.length > 0) await refused(c, g, ["id", "nope", "x"]);
      c.trace();
    }
  }
  Math.random = real;
}

check({
  id: "C08",
  run,
  rule: "every sequence of up to 3 texts over an alphabet, and larger corpora of words, tokens occurring hundreds of times in a record, data beyond 2 and 4 GiB, searched for a menu of query texts with every gram configuration and every order of the query tokens (all permutations up to the bound, else four fixed ones), compared with an independent scorer",
  assumptions: ["query texts of ASCII characters", "records of equal score may come in any order", "scores are compared up to rounding (1e-9)"],
});
