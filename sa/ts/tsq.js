// Extracts from the TypeScript sources: declared option names with their documented
// defaults, and what each exported function passes to the WASM module (a small
// symbolic evaluation of the functions' syntax trees).
const path = require("path");
const ts = require(process.env.TSLIB || "/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const dir = process.argv[2];

function parse(f) {
  const p = path.join(dir, f);
  return ts.createSourceFile(p, fs.readFileSync(p, "utf8"), ts.ScriptTarget.Latest, true);
}
const out = { interfaces: {}, functions: {} };
for (const f of fs.readdirSync(dir).filter((x) => x.endsWith(".ts"))) {
  parse(f).forEachChild((n) => {
    if (ts.isInterfaceDeclaration(n)) {
      const m = {};
      for (const p of n.members) {
        if (!ts.isPropertySignature(p)) continue;
        let d = null;
        for (const t of ts.getJSDocTags(p)) {
          if (t.tagName.text === "default") d = (ts.getTextOfJSDocComment(t.comment) || "").trim();
        }
        m[p.name.text] = { optional: !!p.questionToken, type: p.type ? p.type.getText() : "", default: d };
      }
      out.interfaces[n.name.text] = {
        members: m,
        extends: (n.heritageClauses || []).flatMap((h) => h.types.map((t) => t.expression.getText())),
      };
    }
  });
}

// symbolic evaluation of index.ts
const src = parse("index.ts");
const funcs = {}, imports = {};
src.forEachChild((n) => {
  if (ts.isFunctionDeclaration(n) && n.name) funcs[n.name.text] = n;
  if (ts.isVariableStatement(n)) {
    for (const d of n.declarationList.declarations) {
      if (d.initializer && (ts.isArrowFunction(d.initializer) || ts.isFunctionExpression(d.initializer)) && ts.isIdentifier(d.name)) {
        d.initializer.modifiers2 = n.modifiers;
        funcs[d.name.text] = d.initializer;
      }
    }
  }
  if (ts.isImportDeclaration(n) && n.importClause && n.importClause.namedBindings && ts.isNamedImports(n.importClause.namedBindings)) {
    for (const e of n.importClause.namedBindings.elements) imports[e.name.text] = (e.propertyName || e.name).text;
  }
});

function run(fn, args, depth, calls) {
  const env = {};
  fn.parameters.forEach((p, i) => bind(p.name, args[i] === undefined ? ["undef"] : args[i], env));
  const rets = [];
  if (!ts.isBlock(fn.body)) return ev(fn.body, env);
  block(fn.body, env);
  return rets.length === 1 ? rets[0] : ["alt", ...rets];

  function bind(name, v, env) {
    if (ts.isIdentifier(name)) env[name.text] = v;
    else if (ts.isObjectBindingPattern(name)) {
      const taken = [];
      for (const e of name.elements) {
        if (e.dotDotDotToken) env[e.name.text] = ["rest", v, taken.slice().sort()];
        else {
          const key = (e.propertyName || e.name).getText();
          taken.push(key);
          bind(e.name, ["prop", v, key], env);
        }
      }
    } else throw new Error("binding " + name.getText());
  }
  function block(b, env) {
    for (const s of b.statements) stmt(s, env);
  }
  function stmt(s, env) {
    if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) bind(d.name, d.initializer ? ev(d.initializer, env) : ["undef"], env);
    else if (ts.isReturnStatement(s)) rets.push(s.expression ? ev(s.expression, env) : ["undef"]);
    else if (ts.isExpressionStatement(s)) ev(s.expression, env);
    else if (ts.isBlock(s)) block(s, env);
    else if (ts.isIfStatement(s)) {
      ev(s.expression, env);
      // both ways; assignments in either are joined
      const e1 = { ...env }, e2 = { ...env };
      stmt(s.thenStatement, e1);
      if (s.elseStatement) stmt(s.elseStatement, e2);
      for (const k of new Set([...Object.keys(e1), ...Object.keys(e2)]))
        env[k] = JSON.stringify(e1[k]) === JSON.stringify(e2[k]) ? e1[k] : ["alt", e1[k] || ["undef"], e2[k] || ["undef"]];
    } else if (ts.isTryStatement(s)) {
      block(s.tryBlock, env);
      if (s.catchClause) block(s.catchClause.block, { ...env });
      if (s.finallyBlock) block(s.finallyBlock, env);
    } else if (ts.isThrowStatement(s) || ts.isEmptyStatement(s)) {
    } else throw new Error("statement " + ts.SyntaxKind[s.kind]);
  }
  function ev(e, env) {
    if (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isAwaitExpression(e) || ts.isNonNullExpression(e) || ts.isSatisfiesExpression?.(e))
      return ev(e.expression, env);
    if (ts.isIdentifier(e)) return e.text === "undefined" ? ["undef"] : env[e.text] !== undefined ? env[e.text] : ["global", imports[e.text] ? "import " + imports[e.text] : e.text];
    if (e.kind === ts.SyntaxKind.NullKeyword) return ["undef"];
    if (ts.isStringLiteralLike(e) || ts.isNumericLiteral(e)) return ["lit", e.text];
    if (e.kind === ts.SyntaxKind.TrueKeyword || e.kind === ts.SyntaxKind.FalseKeyword) return ["lit", e.getText()];
    if (ts.isPropertyAccessExpression(e)) return ["prop", ev(e.expression, env), e.name.text];
    if (ts.isCallExpression(e)) {
      const f = ts.isIdentifier(e.expression) ? e.expression.text : null;
      const as = e.arguments.map((a) => ev(a, env));
      if (f && imports[f]) {
        calls.push([imports[f], as]);
        return ["call", imports[f], as];
      }
      if (f && funcs[f] && depth < 6) return run(funcs[f], as, depth + 1, calls);
      return ["call", f || e.expression.getText(), as];
    }
    if (ts.isBinaryExpression(e)) {
      const o = e.operatorToken.kind;
      if (o === ts.SyntaxKind.QuestionQuestionToken || o === ts.SyntaxKind.BarBarToken) {
        const a = ev(e.left, env), b = ev(e.right, env);
        // x ?? nothing is x; x ?? {} is x, or no options
        if (b[0] === "undef" || (b[0] === "obj" && b.length === 1)) return a;
        return ["alt", a, b];
      }
      if (o === ts.SyntaxKind.EqualsToken && ts.isIdentifier(e.left)) return (env[e.left.text] = ev(e.right, env));
      return ["op", ts.SyntaxKind[o], ev(e.left, env), ev(e.right, env)];
    }
    if (ts.isConditionalExpression(e)) {
      const a = ev(e.whenTrue, env), b = ev(e.whenFalse, env);
      return JSON.stringify(a) === JSON.stringify(b) ? a : ["alt", a, b];
    }
    if (ts.isObjectLiteralExpression(e)) {
      if (e.properties.length === 1 && ts.isSpreadAssignment(e.properties[0])) return ev(e.properties[0].expression, env);
      return ["obj", ...e.properties.map((p) => (ts.isPropertyAssignment(p) ? [p.name.getText(), ev(p.initializer, env)] : [p.getText()]))];
    }
    if (ts.isArrowFunction(e) || ts.isFunctionExpression(e)) return ["function", e.getText().slice(0, 80)];
    if (ts.isPrefixUnaryExpression(e)) return ["op", ts.SyntaxKind[e.operator], ev(e.operand, env)];
    return ["?", ts.SyntaxKind[e.kind]];
  }
}
for (const [name, fn] of Object.entries(funcs)) {
  const exported = (fn.modifiers || fn.modifiers2 || []).some((m) => m.kind === ts.SyntaxKind.ExportKeyword);
  if (!exported) continue;
  const calls = [];
  const ret = run(fn, fn.parameters.map((_, i) => ["param", i]), 0, calls);
  out.functions[name] = { params: fn.parameters.length, calls, ret };
}
console.log(JSON.stringify(out));
