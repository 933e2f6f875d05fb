'use strict';
// node tools/mutants.js FILE...  prints mutants of source files (paths under /repo/packages), one JSON object per line
const fs = require('fs'), path = require('path');
const REPO = process.env.VERIF_REPO || '/repo';
const ts = require(path.join(REPO, 'node_modules/typescript'));
const K = ts.SyntaxKind;
const SWAP = { '===': ['!=='], '!==': ['==='], '&&': ['||'], '||': ['&&'], '??': ['||'], '<': ['<='], '>': ['>='], '<=': ['<'], '>=': ['>'], '+': ['-'] };
for (const f of process.argv.slice(2)) {
  const full = path.join(REPO, 'packages', f), src = fs.readFileSync(full, 'utf8');
  const sf = ts.createSourceFile(full, src, ts.ScriptTarget.Latest, true);
  const out = (n, text, what, start = n.getStart(sf), end = n.getEnd()) => {
    const line = sf.getLineAndCharacterOfPosition(start).line + 1;
    console.log(JSON.stringify({ file: f, line, start, end, text, what, old: src.slice(start, end).slice(0, 120) }));
  };
  const visit = (n) => {
    if (ts.isImportDeclaration(n)) return;
    if (ts.isBinaryExpression(n)) {
      for (const o of SWAP[n.operatorToken.getText(sf)] || []) out(n.operatorToken, o, `${n.operatorToken.getText(sf)} -> ${o}`);
      if (['&&', '||', '??'].includes(n.operatorToken.getText(sf))) { out(n, `(${n.left.getText(sf)})`, 'left only'); out(n, `(${n.right.getText(sf)})`, 'right only'); }
    }
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) out(n, n.operand.getText(sf), 'no !');
    if (ts.isIfStatement(n)) {
      out(n.expression, `${n.expression.getText(sf)} && !1`, 'if false');
      out(n.expression, `${n.expression.getText(sf)} || !0`, 'if true');
    }
    if (ts.isConditionalExpression(n)) { out(n, `(${n.whenTrue.getText(sf)})`, 'then only'); out(n, `(${n.whenFalse.getText(sf)})`, 'else only'); }
    if (ts.isExpressionStatement(n)) out(n, ';', 'no statement');
    if (n.kind === K.ContinueStatement || n.kind === K.BreakStatement) { if (n.kind === K.ContinueStatement) { out(n, ';', 'no continue'); out(n, 'break;', 'continue -> break'); } }
    if (ts.isReturnStatement(n) && n.expression === undefined) out(n, ';', 'no return');
    if (ts.isNumericLiteral(n)) out(n, String(Number(n.text) + 1), 'number + 1');
    if ((ts.isSpreadElement(n) || ts.isSpreadAssignment(n) || ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n)) && (ts.isObjectLiteralExpression(n.parent) || ts.isArrayLiteralExpression(n.parent))) {
      let end = n.getEnd(); while (/[\s,]/.test(src[end]) && src[end - 1] !== ',') end++;
      out(n, '', 'element removed', n.getStart(sf), end);
      const list = n.parent.properties || n.parent.elements, i = list.indexOf(n), next = list[i + 1];
      if (next && (ts.isSpreadElement(n) || ts.isSpreadAssignment(n) || ts.isSpreadAssignment(next))) out(n, `${next.getText(sf)}, ${n.getText(sf)}`, 'elements swapped', n.getStart(sf), next.getEnd());
    }
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ['filter', 'trim', 'reverse', 'sort', 'slice', 'toLowerCase', 'toUpperCase', 'replace', 'flatMap'].includes(n.expression.name.text)) out(n, n.expression.expression.getText(sf), `no .${n.expression.name.text}()`);
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ['some', 'every'].includes(n.expression.name.text)) out(n.expression.name, n.expression.name.text === 'some' ? 'every' : 'some', 'some <-> every');
    if (ts.isCallExpression(n) && n.arguments.length === 1 && ts.isIdentifier(n.expression) && /^(optimize|mergeUnions|consolidateUnion|unwrapExpression|combineComments|encodeURIComponent|stringify)$/.test(n.expression.text)) out(n, n.arguments[0].getText(sf), `no ${n.expression.text}()`);
    if (ts.isCaseClause(n) && n.statements.length === 0) { /* fall-through label removed */ out(n, '', 'case removed'); }
    if (ts.isAwaitExpression(n)) out(n, n.expression.getText(sf), 'no await');
    // types
    if (ts.isConditionalTypeNode(n)) { out(n, n.trueType.getText(sf), 'type: then only'); out(n, n.falseType.getText(sf), 'type: else only'); out(n, `${n.extendsType.getText(sf)} extends ${n.checkType.getText(sf)} ? ${n.trueType.getText(sf)} : ${n.falseType.getText(sf)}`, 'type: extends swapped'); }
    if (ts.isIntersectionTypeNode(n) || ts.isUnionTypeNode(n)) n.types.forEach((x, i) => out(n, n.types.filter((_, j) => j !== i).map((y) => y.getText(sf)).join(ts.isUnionTypeNode(n) ? ' | ' : ' & '), 'type: member removed'));
    if (ts.isPropertySignature(n) && n.type) out(n.type, 'any', 'type: any');
    if (ts.isTypeReferenceNode(n) && n.typeArguments && n.typeArguments.length === 1 && /^(Partial|Omit|Simplify|NonNullable|Uppercase|Lowercase|Defined|DefinedValues|Promise|DefinedProps|Flattened)$/.test(n.typeName.getText(sf))) out(n, n.typeArguments[0].getText(sf), `type: no ${n.typeName.getText(sf)}`);
    if (ts.isTypeReferenceNode(n) && /TypeOf$|OutputOf$/.test(n.typeName.getText(sf))) out(n.typeName, n.typeName.getText(sf).replace(/TypeOf$|OutputOf$/, (m) => (m === 'TypeOf' ? 'OutputOf' : 'TypeOf')), 'type: TypeOf <-> OutputOf');
    if (ts.isIndexedAccessTypeNode(n)) out(n.indexType, `keyof ${n.objectType.getText(sf)}`, 'type: any key');
    ts.forEachChild(n, visit);
  };
  visit(sf);
}
