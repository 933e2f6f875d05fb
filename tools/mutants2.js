'use strict';
// node tools/mutants2.js FILE...  like mutants.js, with operators that need the types: wrong variable, wrong property,
// state that outlives a call, undefined taken for falsy, names compared without case, first for last, order of statements
const path = require('path');
const REPO = process.env.VERIF_REPO || '/repo';
const ts = require(path.join(REPO, 'node_modules/typescript'));
for (const f of process.argv.slice(2)) {
  const full = path.join(REPO, 'packages', f), pkg = path.join(REPO, 'packages', f.split('/')[0]);
  const cfg = ts.parseJsonConfigFileContent(ts.readConfigFile(path.join(pkg, 'tsconfig.json'), ts.sys.readFile).config, ts.sys, pkg);
  const program = ts.createProgram([full], { ...cfg.options, noEmit: true, composite: false, incremental: false });
  const ck = program.getTypeChecker(), sf = program.getSourceFile(full), src = sf.text;
  const out = (n, text, what, start = n.getStart(sf), end = n.getEnd()) => {
    const line = sf.getLineAndCharacterOfPosition(start).line + 1;
    console.log(JSON.stringify({ file: f, line, start, end, text, what, old: src.slice(start, end).slice(0, 120) }));
  };
  const isType = (n) => { for (let p = n; p; p = p.parent) if (ts.isTypeNode(p) || ts.isTypeAliasDeclaration(p) || ts.isInterfaceDeclaration(p)) return true; return false; };
  const str = (t) => ck.typeToString(t);
  const text = (n) => n.getText(sf);
  let count = 0;
  const visit = (n) => {
    if (ts.isImportDeclaration(n) || ts.isTypeNode(n) || ts.isTypeAliasDeclaration(n)) return;
    if (ts.isIdentifier(n) && !isType(n) && n.parent && !ts.isPropertyAccessExpression(n.parent) && !ts.isCallExpression(n.parent) | (ts.isCallExpression(n.parent) && n.parent.expression !== n) && !ts.isShorthandPropertyAssignment(n.parent) && !(n.parent.name === n) && !ts.isBindingElement(n.parent)) {
      const t = ck.getTypeAtLocation(n);
      const others = ck.getSymbolsInScope(n, ts.SymbolFlags.BlockScopedVariable | ts.SymbolFlags.FunctionScopedVariable).filter((s) => {
        const d = s.valueDeclaration;
        return d && d.getSourceFile() === sf && s.name !== n.text && d.getEnd() < n.getStart(sf) && d.parent && !ts.isSourceFile(d.parent.parent.parent || d) && str(ck.getTypeOfSymbolAtLocation(s, n)) === str(t);
      });
      for (const o of others.slice(0, 2)) out(n, o.name, 'wrong variable');
    }
    if (ts.isPropertyAccessExpression(n) && !isType(n) && !(ts.isCallExpression(n.parent) && n.parent.expression === n)) {
      const t = str(ck.getTypeAtLocation(n)), obj = ck.getTypeAtLocation(n.expression);
      if (!(ck.isArrayType && ck.isArrayType(obj)) && t !== 'any') {
        const others = ck.getPropertiesOfType(obj).filter((s) => s.name !== n.name.text && s.declarations && !/node_modules\/typescript/.test(s.declarations[0].getSourceFile().fileName) && str(ck.getTypeOfSymbolAtLocation(s, n)) === t);
        for (const o of others.slice(0, 2)) out(n.name, o.name, 'wrong property');
      }
    }
    if (ts.isVariableDeclaration(n) && n.initializer && (ts.isNewExpression(n.initializer) || ((ts.isArrayLiteralExpression(n.initializer) || ts.isObjectLiteralExpression(n.initializer)) && text(n.initializer).replace(/\s/g, '').length === 2)) && n.parent.parent.parent && !ts.isSourceFile(n.parent.parent.parent)) out(n.initializer, `((globalThis as any).__s${++count} ??= ${text(n.initializer)})`, 'outlives the call');
    if (ts.isBinaryExpression(n)) {
      const op = n.operatorToken.getText(sf), l = text(n.left), r = text(n.right);
      if (r === 'undefined' && op === '!==') { out(n, `!!(${l})`, 'undefined -> falsy'); out(n, `(${l}) != null`, 'undefined -> nullish'); }
      if (r === 'undefined' && op === '===') { out(n, `!(${l})`, 'undefined -> falsy'); out(n, `(${l}) == null`, 'undefined -> nullish'); }
      const isS = (x) => (ck.getTypeAtLocation(x).flags & ts.TypeFlags.String) !== 0;
      if ((op === '===' || op === '!==') && isS(n.left) && isS(n.right)) { out(n, `${l}.toLowerCase() ${op} ${r}.toLowerCase()`, 'case ignored'); out(n, `${op === '!==' ? '!' : ''}${l}.startsWith(${r})`, 'prefix'); }
    }
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) {
      const m = n.expression.name.text, o = text(n.expression.expression);
      if (m === 'find') out(n.expression.expression, `[...${o}].reverse()`, 'last for first');
      if (m === 'push' && n.arguments.length === 1) out(n.expression.name, 'unshift', 'push -> unshift');
      if (m === 'trim') out(n.expression.name, 'trimEnd', 'trim -> trimEnd');
      if (m === 'startsWith') out(n.expression.name, 'includes', 'startsWith -> includes');
      if (m === 'includes') out(n.expression.name, 'startsWith', 'includes -> startsWith');
      if (m === 'pop') out(n.expression.name, 'shift', 'pop <-> shift');
      if (m === 'map' || m === 'forEach' || m === 'flatMap') out(n.expression.expression, `${o}.slice(0, 4)`, 'first four only');
      if (m === 'concat' && n.arguments.length === 1) out(n, `${text(n.arguments[0])}.concat(${o})`, 'concat swapped');
    }
    if (ts.isForOfStatement(n)) { out(n.expression, `[...${text(n.expression)}].slice(0, 4)`, 'first four only'); out(n.expression, `[...${text(n.expression)}].reverse()`, 'reversed'); }
    if (ts.isBlock(n) || ts.isSourceFile(n)) n.statements.forEach((s, i) => {
      const next = n.statements[i + 1];
      if (!ts.isSourceFile(n) && next && !ts.isReturnStatement(next) && !ts.isReturnStatement(s) && !ts.isFunctionDeclaration(next)) out(s, `${text(next)}\n${text(s)}`, 'statements swapped', s.getStart(sf), next.getEnd());
    });
    if (ts.isCallExpression(n) && n.arguments.length >= 2) n.arguments.forEach((a, i) => { const b = n.arguments[i + 1]; if (b && str(ck.getTypeAtLocation(a)) === str(ck.getTypeAtLocation(b)) && !ts.isArrowFunction(a)) out(a, `${text(b)}, ${text(a)}`, 'arguments swapped', a.getStart(sf), b.getEnd()); });
    ts.forEachChild(n, visit);
  };
  visit(sf);
}
