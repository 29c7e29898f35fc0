'use strict';
// Loads every package's sources into one type-checked TypeScript program, with
// cross-package imports resolved to sources (not to build products).
const fs = require('fs');
const path = require('path');

function loadTs() {
  for (const p of [
    '/opt/veriftools/node/node_modules/typescript',
    '/repo/node_modules/typescript',
  ]) {
    if (fs.existsSync(p)) return require(p);
  }
  return require('typescript');
}
const ts = loadTs();
const REPO = process.env.VERIF_REPO || '/repo';

function walk(dir, out = []) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    const p = path.join(dir, e.name);
    if (e.isDirectory()) {
      if (e.name === 'node_modules' || e.name === 'dist') continue;
      walk(p, out);
    } else if (/\.tsx?$/.test(e.name) && !/\.(test|spec)\.tsx?$/.test(e.name)) {
      out.push(p);
    }
  }
  return out;
}

class Program {
  constructor() {
    const pk = path.join(REPO, 'packages');
    this.files = [];
    for (const p of fs.readdirSync(pk).sort()) {
      const s = path.join(pk, p, 'src');
      if (fs.existsSync(s)) walk(s, this.files);
    }
    this.files.sort();
    const P = (x) => [path.join(pk, x, 'src/index.ts')];
    this.tsProgram = ts.createProgram(this.files, {
      target: ts.ScriptTarget.ES2022,
      lib: ['lib.es2022.d.ts', 'lib.dom.d.ts', 'lib.dom.iterable.d.ts'],
      module: ts.ModuleKind.ES2020,
      moduleResolution: ts.ModuleResolutionKind.Node10 ?? ts.ModuleResolutionKind.NodeJs,
      resolveJsonModule: true,
      esModuleInterop: true,
      allowSyntheticDefaultImports: true,
      strictNullChecks: true,
      skipLibCheck: true,
      noEmit: true,
      baseUrl: REPO,
      types: ['node'],
      typeRoots: [path.join(REPO, 'node_modules/@types')],
      paths: {
        '@amplitude/experiment-core': P('experiment-core'),
        '@amplitude/experiment-js-client': P('experiment-browser'),
        '@amplitude/analytics-connector': P('analytics-connector'),
        '@amplitude/experiment-plugin-segment': P('plugin-segment'),
      },
    });
    this.checker = this.tsProgram.getTypeChecker();
    this.fileSet = new Set(this.files);
    this.sources = this.files.map((f) => this.tsProgram.getSourceFile(f));
    this._index();
  }
  rel(f) {
    return path.relative(REPO, f);
  }
  isRepo(node) {
    return this.fileSet.has(node.getSourceFile().fileName);
  }
  _index() {
    this.classes = new Map(); // name -> [decl]
    this.functions = new Map(); // name -> [fn node]
    this.allFns = [];
    this.mutatedSymbols = new Set();
    const checker = this.checker;
    const root = (e) => {
      let depth = 0;
      while (
        ts.isPropertyAccessExpression(e) ||
        ts.isElementAccessExpression(e) ||
        ts.isNonNullExpression(e) ||
        ts.isParenthesizedExpression(e) ||
        ts.isAsExpression(e)
      ) {
        if (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) depth++;
        e = e.expression;
      }
      return ts.isIdentifier(e) && depth > 0 ? e : null;
    };
    const mut = (e) => {
      const r = root(e);
      if (r) {
        const s = this.symbolOf(r);
        if (s) this.mutatedSymbols.add(s);
      }
    };
    const visit = (n) => {
      if (ts.isClassDeclaration(n) && n.name) {
        push(this.classes, n.name.text, n);
      }
      if (ts.isFunctionLike(n) && n.body) this.allFns.push(n);
      if (ts.isFunctionDeclaration(n) && n.name && n.body) push(this.functions, n.name.text, n);
      if (
        ts.isVariableDeclaration(n) &&
        ts.isIdentifier(n.name) &&
        n.initializer &&
        (ts.isArrowFunction(n.initializer) || ts.isFunctionExpression(n.initializer))
      ) {
        push(this.functions, n.name.text, n.initializer);
      }
      if (
        ts.isBinaryExpression(n) &&
        n.operatorToken.kind >= ts.SyntaxKind.FirstAssignment &&
        n.operatorToken.kind <= ts.SyntaxKind.LastAssignment
      )
        mut(n.left);
      if (ts.isDeleteExpression(n)) mut(n.expression);
      if (
        (ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) &&
        (n.operator === ts.SyntaxKind.PlusPlusToken || n.operator === ts.SyntaxKind.MinusMinusToken)
      )
        mut(n.operand);
      if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) {
        const m = n.expression.name.text;
        if (/^(push|pop|shift|unshift|splice|sort|reverse|set|add|delete|clear|fill)$/.test(m)) {
          const ob = n.expression.expression;
          const id = ts.isIdentifier(ob) ? ob : root(ob);
          if (id) {
            const s = this.symbolOf(id);
            if (s) this.mutatedSymbols.add(s);
          }
        }
      }
      ts.forEachChild(n, visit);
    };
    for (const s of this.sources) visit(s);
    function push(m, k, v) {
      if (!m.has(k)) m.set(k, []);
      m.get(k).push(v);
    }
  }
  symbolOf(node) {
    let s = this.checker.getSymbolAtLocation(node);
    if (!s) return undefined;
    if (ts.isShorthandPropertyAssignment(node.parent) && node.parent.name === node) {
      s = this.checker.getShorthandAssignmentValueSymbol(node.parent) || s;
    }
    return this.unalias(s);
  }
  unalias(s) {
    let i = 0;
    while (s && s.flags & ts.SymbolFlags.Alias && i++ < 10) {
      const t = this.checker.getAliasedSymbol(s);
      if (!t || t === s) break;
      s = t;
    }
    return s;
  }
  loc(node) {
    const sf = node.getSourceFile();
    const { line } = sf.getLineAndCharacterOfPosition(node.getStart(sf));
    return `${this.rel(sf.fileName)}:${line + 1}`;
  }
  // Human/qualified name of a function-like declaration.
  fnName(fn) {
    if (ts.isConstructorDeclaration(fn)) return `${fn.parent.name?.text}.constructor`;
    if (
      ts.isMethodDeclaration(fn) ||
      ts.isGetAccessor(fn) ||
      ts.isSetAccessor(fn) ||
      ts.isMethodSignature(fn)
    ) {
      const c = fn.parent;
      const cn = c && c.name ? c.name.text : 'object';
      return `${cn}.${fn.name.getText()}`;
    }
    if (fn.name) return fn.name.text;
    const p = fn.parent;
    if (p && ts.isVariableDeclaration(p) && ts.isIdentifier(p.name)) return p.name.text;
    if (p && ts.isPropertyDeclaration(p) && p.parent.name) return `${p.parent.name.text}.${p.name.getText()}`;
    if (p && ts.isPropertyAssignment(p)) {
      const o = p.parent && p.parent.parent;
      const on = o && ts.isVariableDeclaration(o) ? o.name.getText() + '.' : '';
      return on + p.name.getText();
    }
    return `<anonymous@${this.loc(fn)}>`;
  }
  // Look up "Class", "Class.method", "function" optionally restricted to a file suffix.
  findClass(name, fileHint) {
    const c = (this.classes.get(name) || []).filter(
      (d) => !fileHint || d.getSourceFile().fileName.includes(fileHint),
    );
    return c[0];
  }
  findMember(cls, name) {
    for (let c = cls; c; c = this.superClass(c)) {
      for (const m of c.members) {
        if (m.name && m.name.getText() === name) {
          if ((ts.isMethodDeclaration(m) && m.body) || ts.isGetAccessor(m)) return m;
          if (ts.isPropertyDeclaration(m)) return m;
        }
      }
    }
    return undefined;
  }
  findFn(name, fileHint) {
    if (name.includes('.')) {
      const [c, m] = name.split('.');
      const cls = this.findClass(c, fileHint);
      if (cls) {
        if (m === 'constructor') return cls.members.find((x) => ts.isConstructorDeclaration(x) && x.body);
        const d = this.findMember(cls, m);
        if (d && ts.isPropertyDeclaration(d)) {
          return d.initializer && ts.isFunctionLike(d.initializer) ? d.initializer : undefined;
        }
        return d;
      }
      // object-literal member: const X = { m: () => ... }
      for (const s of this.sources) {
        if (fileHint && !s.fileName.includes(fileHint)) continue;
        let r;
        const v = (n) => {
          if (
            ts.isVariableDeclaration(n) &&
            n.name.getText() === c &&
            n.initializer &&
            ts.isObjectLiteralExpression(n.initializer)
          ) {
            for (const p of n.initializer.properties) {
              if (p.name && p.name.getText() === m) {
                if (ts.isMethodDeclaration(p)) r = p;
                else if (ts.isPropertyAssignment(p) && ts.isFunctionLike(p.initializer)) r = p.initializer;
              }
            }
          }
          ts.forEachChild(n, v);
        };
        v(s);
        if (r) return r;
      }
      return undefined;
    }
    const f = (this.functions.get(name) || []).filter(
      (d) => !fileHint || d.getSourceFile().fileName.includes(fileHint),
    );
    return f[0];
  }
  superClass(cls) {
    const h = (cls.heritageClauses || []).find((x) => x.token === ts.SyntaxKind.ExtendsKeyword);
    if (!h) return undefined;
    const s = this.symbolOf(h.types[0].expression);
    return s && (s.declarations || []).find((d) => ts.isClassDeclaration(d));
  }
}

let inst;
module.exports = { ts, REPO, getProgram: () => inst || (inst = new Program()) };
