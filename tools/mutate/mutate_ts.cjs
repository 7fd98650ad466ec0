// usage: node mutate_ts.cjs FILE [N]   lists, or prints the file with change N
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const file = process.argv[2], n = process.argv[3] === undefined ? -1 : +process.argv[3];
const text = fs.readFileSync(file, "utf8");
const sf = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true);
const ms = []; // {pos, what, from, to, by}
const add = (what, from, to, by) => ms.push({ what, from, to, by });
const K = ts.SyntaxKind;
const swap = {
  [K.LessThanToken]: ["<=", ">="], [K.GreaterThanToken]: [">=", "<="], [K.LessThanEqualsToken]: ["<", ">"], [K.GreaterThanEqualsToken]: [">", "<"],
  [K.EqualsEqualsEqualsToken]: ["!=="], [K.ExclamationEqualsEqualsToken]: ["==="], [K.EqualsEqualsToken]: ["!="], [K.ExclamationEqualsToken]: ["=="],
  [K.PlusToken]: ["-"], [K.MinusToken]: ["+"], [K.AsteriskToken]: ["+"], [K.SlashToken]: ["*"], [K.PercentToken]: ["/"],
  [K.AmpersandAmpersandToken]: ["||"], [K.BarBarToken]: ["&&"], [K.PlusEqualsToken]: ["=", "-="], [K.QuestionQuestionToken]: ["&&"],
  [K.AmpersandToken]: ["|"], [K.BarToken]: ["&"], [K.LessThanLessThanToken]: [">>"], [K.GreaterThanGreaterThanToken]: ["<<"],
};
(function walk(x) {
  if (ts.isImportDeclaration(x) || ts.isTypeNode(x) || ts.isInterfaceDeclaration(x) || ts.isTypeAliasDeclaration(x) || ts.isThrowStatement(x)) return;
  const st = x.getStart(sf), en = x.getEnd(), src = text.slice(st, en);
  if (ts.isBinaryExpression(x)) {
    const o = x.operatorToken;
    for (const by of swap[o.kind] ?? []) add(`${o.getText(sf)} -> ${by}`, o.getStart(sf), o.getEnd(), by);
  } else if (ts.isNumericLiteral(x)) {
    add(`${src} -> +1`, st, en, `(${src} + 1)`);
    if (Number(src) > 0) add(`${src} -> -1`, st, en, `(${src} - 1)`);
  } else if (ts.isIfStatement(x) || ts.isConditionalExpression(x)) {
    const c = ts.isIfStatement(x) ? x.expression : x.condition;
    add("if false", c.getStart(sf), c.getEnd(), `(${c.getText(sf)}) && false`);
    add("if true", c.getStart(sf), c.getEnd(), `(${c.getText(sf)}) || true`);
  } else if (ts.isExpressionStatement(x)) add("delete statement", st, en, ";");
  else if (ts.isBreakStatement(x)) add("break -> continue", st, en, "continue;"), add("delete break", st, en, ";");
  else if (ts.isContinueStatement(x)) add("continue -> break", st, en, "break;"), add("delete continue", st, en, ";");
  else if (ts.isAwaitExpression(x)) add("drop await", st, en, x.expression.getText(sf));
  else if (ts.isPrefixUnaryExpression(x) && x.operator === K.ExclamationToken) add("drop !", st, en, `!!(${x.operand.getText(sf)})`);
  else if (x.kind === K.TrueKeyword) add("true -> false", st, en, "false");
  else if (x.kind === K.FalseKeyword) add("false -> true", st, en, "true");
  else if (ts.isCallExpression(x) && ts.isPropertyAccessExpression(x.expression) && ["slice", "subarray"].includes(x.expression.name.text)) {
    for (let i = 0; i < x.arguments.length; i++) { const a = x.arguments[i]; add(`${x.expression.name.text} arg${i}+1`, a.getStart(sf), a.getEnd(), `(${a.getText(sf)}) + 1`); }
  } else if (ts.isReturnStatement(x) && x.expression && !ts.isBlock(x.parent)) add("delete return", st, en, ";");
  ts.forEachChild(x, walk);
})(sf);
if (n < 0) ms.forEach((m, i) => console.log(`${i}\t${sf.getLineAndCharacterOfPosition(m.from).line + 1}\t${m.what}`));
else { const m = ms[n]; process.stdout.write(text.slice(0, m.from) + m.by + text.slice(m.to)); }
