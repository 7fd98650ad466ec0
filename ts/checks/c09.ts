import { check, bundle, Ctx, wordsOf } from "../lib/core";
import { NgramTokenizer, NgramToken } from "repo/ngram/tokenizer";
import { FieldType } from "repo/db/database";

const TYPE: Record<number, FieldType> = { 1: FieldType.Unigram, 2: FieldType.Bigram, 3: FieldType.Trigram };
const LEN = new Map([
  [FieldType.Unigram, 1],
  [FieldType.Bigram, 2],
  [FieldType.Trigram, 3],
]);

function multiset(xs: string[]): string {
  return JSON.stringify(xs.slice().sort());
}

// every token stands for its own text
function tokenOk(t: NgramToken): string | null {
  const n = LEN.get(t.type);
  if (n === undefined) return `token of unknown type ${t.type}`;
  if (t.value.length !== n) return `token "${t.value}" is typed as ${n} characters`;
  if (Buffer.from(t.valueBuf).toString("utf8") !== t.value || t.valueBuf.byteLength !== Buffer.byteLength(t.value))
    return `token "${t.value}" carries the bytes ${Buffer.from(t.valueBuf).toString("hex")}`;
  if (!/^[a-z0-9]*$/.test(t.value)) return `token "${t.value}" has characters that are not indexed`;
  return null;
}

// independent tokenizer for any text: words are separated by whitespace, other
// characters than ASCII letters and digits are left out
function reference(text: string, g: number): string[] {
  const out: string[] = [];
  for (const word of text.split(/\s+/u)) {
    const s = word.replace(/[^a-zA-Z0-9]/gu, "").toLowerCase();
    for (let i = 0; i + g <= s.length; i++) out.push(s.slice(i, i + g));
  }
  return out;
}

async function grams(c: Ctx, key: string, text: string, want: (g: number) => string[]) {
  for (let min = 1; min <= 3; min++) {
    for (let max = min; max <= 3; max++) {
      const cs = { text, min, max };
      await c.guard(key, cs, () => {
        const toks = new NgramTokenizer(min, max).tokens(text);
        c.trans();
        const expect: string[] = [];
        for (let g = min; g <= max; g++) expect.push(...want(g));
        if (multiset(toks.map((t) => t.value)) !== multiset(expect)) {
          c.violate(key, cs, `tokens ${JSON.stringify(toks.map((t) => t.value))}, expected ${JSON.stringify(expect)}`);
        }
        for (const t of toks) {
          const bad = tokenOk(t);
          if (bad) c.violate(key + "-token", cs, bad);
        }
        // asking twice gives the same
        const again = new NgramTokenizer(min, max).tokens(text);
        if (JSON.stringify(again.map((t) => t.value)) !== JSON.stringify(toks.map((t) => t.value)))
          c.violate(key + "-again", cs, "the tokens differ the second time");
        c.state(JSON.stringify([min, max, toks.map((t) => t.value)]));
      });
    }
  }
}

async function run(c: Ctx) {
  const fixed = Math.random;
  for (const g of bundle()) {
    for (const line of Buffer.from(g.data).toString("utf8").split("\n")) {
      if (line === "") continue;
      if (!c.mine()) continue;
      if (c.tooMany()) break;
      const { t: text, g: toks } = JSON.parse(line);
      c.sample({ text, tokens: toks });
      await grams(c, "ascii", text, (n) => toks[n - 1]);
      c.trace();
    }
  }
  // characters outside ASCII: never fail, never disturb neighbouring words
  const alpha = ["a", "b9", " ", "é", "ß", "日", "😀", "\u00a0", "\u2003", "\ud83d", "\udc00", "\u0301", "İ", "K", "\ufeff", "\u0000"];
  const n = c.bound(4, 5);
  for (let l = 1; l <= n; l++) {
    for (const w of wordsOf(alpha.length, l)) {
      if (!c.mine()) continue;
      if (c.tooMany() || c.expired("other characters")) break;
      const text = w.map((k) => alpha[k]).join("");
      // what separates words differs between the two for exotic spaces: only the
      // plain ones are settled
      if (/[\u00a0\u2003\ufeff]/.test(text)) {
        for (const [min, max] of [
          [1, 1],
          [1, 3],
          [2, 3],
        ]) {
          const cs = { text, min, max };
          await c.guard("exotic-space", cs, () => {
            const toks = new NgramTokenizer(min, max).tokens(text);
            c.trans();
            for (const t of toks) {
              const bad = tokenOk(t);
              if (bad) c.violate("exotic-space-token", cs, bad);
            }
            // single characters do not depend on where words end
            const one = toks.filter((t) => t.type === FieldType.Unigram).map((t) => t.value);
            if (min === 1 && multiset(one) !== multiset(reference(text, 1))) c.violate("exotic-space", cs, `tokens ${JSON.stringify(one)}`);
          });
        }
      } else {
        await grams(c, "unicode", text, (g) => reference(text, g));
      }
    }
  }
  // every single character between two words
  for (let cp = 0x80; cp < 0x11000; cp++) {
    if (!c.mine()) continue;
    if (c.tooMany()) break;
    const ch = String.fromCodePoint(cp);
    if (/\s/u.test(ch) || cp === 0x85) continue;
    const text = `ab ${ch}${ch} cd`;
    const cs = { text, codepoint: cp };
    await c.guard("character", cs, () => {
      const toks = new NgramTokenizer(2, 2).tokens(text).map((t) => t.value);
      c.trans();
      if (multiset(toks) !== multiset(["ab", "cd"])) c.violate("character", cs, `tokens ${JSON.stringify(toks)}`);
    });
  }
  // shuffling permutes: every answer of the random source
  const toks = (k: number): NgramToken[] =>
    Array.from({ length: k }, (_, i) => ({ value: "t" + (i % 3), valueBuf: new Uint8Array([i]).buffer, type: FieldType.Unigram }));
  for (let k = 0; k <= c.bound(6, 8); k++) {
    const seen = new Set<string>();
    // answers of Math.random: the middle and both ends of every cell
    const choices = Math.max(1, k);
    for (const w of wordsOf(choices, Math.max(0, k - 1))) {
      if (!c.mine()) continue;
      if (c.tooMany() || c.expired("shuffles")) break;
      const cs = { tokens: k, answers: w };
      await c.guard("shuffle", cs, () => {
        let i = 0;
        const given = toks(k);
        const before = given.slice();
        (Math as any).random = () => {
          const v = w.length ? w[i++ % w.length] : 0;
          return v === choices - 1 ? 1 - Number.EPSILON / 2 : v / choices;
        };
        let got: NgramToken[];
        try {
          got = NgramTokenizer.shuffle(given);
        } finally {
          Math.random = fixed;
        }
        c.trans();
        if (got.length !== k || new Set(got).size !== k || got.some((t) => !before.includes(t)))
          c.violate("shuffle", cs, `the result is no permutation: ${JSON.stringify(got.map((t) => t && new Uint8Array(t.valueBuf)[0]))}`);
        if (given.length !== k || given.some((t, i) => t !== before[i])) c.violate("shuffle-argument", cs, "the given list is changed");
        seen.add(JSON.stringify(got.map((t) => t && new Uint8Array(t.valueBuf)[0])));
        c.state("shuffle" + k + JSON.stringify(got.map((t) => t && new Uint8Array(t.valueBuf)[0])));
      });
    }
  }
  // gram lengths without an index type
  if (c.shard === 0) {
    for (const [min, max] of [
      [0, 1],
      [0, 0],
      [1, 4],
      [4, 4],
      [4, 5],
      [2, 7],
      [-1, 1],
      [0, 3],
    ]) {
      const cs = { min, max };
      let threw = false;
      try {
        new NgramTokenizer(min, max).tokens("abcdef ghijklm");
      } catch {
        threw = true;
      }
      c.trans();
      if (!threw) c.violate("unknown-gram", cs, `gram lengths ${min} to ${max} are accepted`);
    }
  }
}

check({
  id: "C09",
  run,
  rule: "every text over a 6-letter alphabet up to the bound and every ASCII character and pair of characters in context, cut by the real indexer and the real client for every gram range; every text over 16 non-ASCII building blocks up to the bound; every code point below U+11000 between words; every answer of the random source while shuffling up to the bound",
  assumptions: ["only gram ranges with min <= max are used", "exotic spaces (U+00A0, U+2003, U+FEFF) may or may not separate words"],
});
