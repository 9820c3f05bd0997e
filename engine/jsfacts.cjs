// jsfacts: abstract evaluation of the WebAssembly bindings. Every method of every class is evaluated once, with its parameters
// symbolic; calls between methods are followed. Records each use of an export of the module and each access to its memory, with
// addresses and values as linear forms over symbols. Nothing is run, and nothing is decided here.
const fs = require("fs");
const acorn = require("/opt/veriftools/node/node_modules/acorn");
const file = process.argv[2];
const src = fs.readFileSync(file, "utf8");
const ast = acorn.parse(src, { ecmaVersion: "latest", sourceType: "module", locations: true });

let counter = 0;
const events = [];
const num = n => ({ k: "lin", c: n, t: {} });
const atom = (name, extra) => Object.assign({ k: "lin", c: 0, t: { [name]: 1 } }, extra || {});
const fresh = (what, extra) => atom(what + "#" + (++counter), extra);
const isLin = v => v && v.k === "lin";
const isNum = v => isLin(v) && Object.keys(v.t).length === 0;
const add = (a, b, s) => {
    const t = { ...a.t };
    for (const k in b.t) { t[k] = (t[k] || 0) + s * b.t[k]; if (t[k] === 0) delete t[k]; }
    return { k: "lin", c: a.c + s * b.c, t };
};
const scale = (a, s) => { const t = {}; for (const k in a.t) if (a.t[k] * s !== 0) t[k] = a.t[k] * s; return { k: "lin", c: a.c * s, t }; };
const str = v => {
    if (!v) return "?";
    if (v.k === "lin") return Object.keys(v.t).sort().map(k => v.t[k] === 1 ? k : v.t[k] + "*" + k).concat(v.c || !Object.keys(v.t).length ? [v.c] : []).join(" + ");
    if (v.k === "path") return v.p;
    if (v.k === "str") return JSON.stringify(v.s);
    if (v.k === "or") return "{" + v.v.map(str).join("|") + "}";
    return v.k;
};
const toLin = v => isLin(v) ? v : v && v.k === "path" ? atom(v.p) : v && v.k === "exp" ? atom("export:" + v.name) : v && v.k === "bool" ? num(v.b ? 1 : 0) : fresh("val");
const out = v => v && v.k === "lin" ? { c: v.c, t: v.t } : v && v.k === "or" ? { or: v.v.map(out) } : v && v.k === "exp" ? { c: 0, t: { ["export:" + v.name]: 1 } } : v && v.k === "path" ? { c: 0, t: { [v.p]: 1 } } : v && v.k === "str" ? { s: v.s } : { other: v ? v.k : "undefined" };

// classes and module level declarations
const classes = {}, globals = {}, functions = {};
const declare = n => {
    if (!n) return;
    if (n.type === "ExportNamedDeclaration" || n.type === "ExportDefaultDeclaration") return declare(n.declaration);
    if (n.type === "ClassDeclaration") {
        const c = { name: n.id ? n.id.name : "default", methods: {}, getters: {}, fields: {}, statics: {} };
        for (const m of n.body.body) {
            const nm = m.key && (m.key.name || m.key.value);
            const name = m.key && m.key.type === "PrivateIdentifier" ? "#" + nm : nm;
            if (m.type === "MethodDefinition") (m.kind === "get" ? c.getters : m.static ? c.statics : c.methods)[name] = m.value;
            else if (m.type === "PropertyDefinition") (m.static ? c.statics : c.fields)[name] = m.value;
        }
        classes[c.name] = c;
    }
    if (n.type === "FunctionDeclaration") functions[n.id.name] = n;
    if (n.type === "VariableDeclaration") for (const d of n.declarations) if (d.id.type === "Identifier") globals[d.id.name] = d.init;
};
ast.body.forEach(declare);

// which fields of `this` hold views of the memory
const views = {};
const VIEW = { Int8Array: 1, Uint8Array: 1, Uint8ClampedArray: 1, Int16Array: 2, Uint16Array: 2, Int32Array: 4, Uint32Array: 4, Float32Array: 4, BigInt64Array: 8, BigUint64Array: 8, Float64Array: 8, DataView: 0 };
(function walk(n) {
    if (!n || typeof n !== "object") return;
    if (Array.isArray(n)) return n.forEach(walk);
    if (n.type === "AssignmentExpression" && n.left.type === "MemberExpression" && n.left.object.type === "ThisExpression" && n.right.type === "NewExpression" && n.right.callee.name in VIEW) {
        const p = n.left.property; views[p.type === "PrivateIdentifier" ? "#" + p.name : p.name] = VIEW[n.right.callee.name];
    }
    for (const k in n) if (k !== "loc" && k !== "start" && k !== "end") walk(n[k]);
})(ast);

let ncb = 0;
function callbacks(a, n, d) {
    if (!a || d > 4) return;
    if (a.k === "fn" && depth < 4) { const k = ++ncb; call(a, a.node.params.map((_, i) => atom("cb" + k + ":" + i)), n); }
    if (a.k === "obj") for (const x of Object.values(a.f)) callbacks(x, n, d + 1);
}
let depth = 0, method = "";
const where = n => file.split("/").slice(-3).join("/") + ":" + n.loc.start.line;

class Ret { constructor(v) { this.v = v; } }

function lookup(env, name) {
    for (let e = env; e; e = e.parent) if (name in e.vars) return e.vars[name];
    if (name in globals) { const g = globals[name]; return g ? ev(g, { vars: {}, self: null }) : undefined; }
    if (name in functions) return { k: "fn", node: functions[name], env: { vars: {}, self: null } };
    if (name in classes) return { k: "cls", c: classes[name] };
    return { k: "path", p: name };
}
function assign(env, name, v) {
    for (let e = env; e; e = e.parent) if (name in e.vars) { e.vars[name] = v; return; }
    env.vars[name] = v;
}
function bind(pat, v, env) {
    if (!pat) return;
    if (pat.type === "Identifier") env.vars[pat.name] = v;
    else if (pat.type === "AssignmentPattern") bind(pat.left, v === undefined || (v && v.k === "undef") ? ev(pat.right, env) : v, env);
    else if (pat.type === "ObjectPattern") for (const p of pat.properties) { if (p.type === "Property") bind(p.value, member(v, p.key.name || p.key.value, p, env), env); }
    else if (pat.type === "ArrayPattern") pat.elements.forEach((p, i) => bind(p, index(v, num(i), pat, env), env));
    else if (pat.type === "RestElement") bind(pat.argument, fresh("rest"), env);
}
function member(o, name, n, env) {
    if (!o) return fresh("prop:" + name);
    if (o.k === "this") {
        if (name in views) return { k: "view", size: views[name] };
        if (o.obj && name in o.obj) return o.obj[name];
        if (o.c && name in o.c.getters) return call({ k: "fn", node: o.c.getters[name], env: { vars: {}, self: o } }, [], n);
        if (o.c && name in o.c.methods) return { k: "fn", node: o.c.methods[name], env: { vars: {}, self: o } };
        if (o.c && name in o.c.statics && o.c.statics[name]) return ev(o.c.statics[name], env);
        if (o.c && name in o.c.fields && o.c.fields[name]) return ev(o.c.fields[name], env);
        return { k: "path", p: "this." + name };
    }
    if (o.k === "cls") { if (name in o.c.statics) { const s = o.c.statics[name]; return s && s.type === "FunctionExpression" ? { k: "fn", node: s, env: { vars: {}, self: { k: "this", c: o.c } } } : ev(s, env); } return { k: "path", p: o.c.name + "." + name }; }
    if (o.k === "exports") { events.push({ e: "export", name, at: where(n), method }); return { k: "exp", name }; }
    if (o.k === "obj") return name in o.f ? o.f[name] : { k: "undef" };
    if (o.k === "view") return { k: "viewfn", size: o.size, name };
    if (name === "exports" && (o.k === "path")) return { k: "exports" };
    if (o.k === "path") return name === "length" ? atom("len(" + o.p + ")") : { k: "path", p: o.p + "." + name };
    if (o.k === "data") return name === "length" || name === "byteLength" ? atom("len(" + o.id + ")") : { k: "path", p: o.id + "." + name };
    if (o.k === "exp" && name === "value") return atom("export:" + o.name);
    if (o.k === "or") { const v = o.v.map(x => member(x, name, n, env)); return v.every(x => str(x) === str(v[0])) ? v[0] : { k: "or", v }; }
    return { k: "path", p: str(o) + "." + name };
}
function index(o, i, n, env) {
    if (o && o.k === "view" && o.size) return load(o.size, scale(toLin(i), o.size), n);
    if (o && o.k === "obj" && isNum(i) && i.c in o.f) return o.f[i.c];
    if (o && o.k === "exports" && i && i.k === "str") return member(o, i.s, n, env);
    if (o && o.k === "this" && i && i.k === "str") return member(o, i.s, n, env);
    if (o && o.k === "obj" && i && i.k === "str") return member(o, i.s, n, env);
    return fresh("elem");
}
function load(size, addr, n) {
    const v = fresh("load");
    events.push({ e: "load", size, addr: out(addr), id: Object.keys(v.t)[0], at: where(n), method });
    return v;
}
function store(size, addr, v, n) {
    events.push({ e: "store", size, addr: out(addr), value: out(v), at: where(n), method });
}
function call(f, args, n) {
    if (f && f.k === "exp") {
        const v = fresh("ret:" + f.name);
        events.push({ e: "call", name: f.name, args: args.map(out), spread: args.some(a => a && a.k === "spread"), id: Object.keys(v.t)[0], at: where(n), method });
        return v;
    }
    if (f && f.k === "viewfn") {
        if (f.size === 0) {
            const m = /^(get|set)(Big)?(U?int|Int|Float)(\d+)$/i.exec(f.name);
            if (m) return m[1] === "get" ? load(+m[4] / 8, toLin(args[0]), n) : store(+m[4] / 8, toLin(args[0]), args[1], n);
        }
        if (f.name === "set") { events.push({ e: "copy", size: f.size, data: str(args[0] && args[0].k === "data" ? { k: "path", p: args[0].id } : args[0]), addr: out(args[1] ? scale(toLin(args[1]), f.size) : num(0)), at: where(n), method }); return undefined; }
        if (f.name === "slice" || f.name === "subarray") { events.push({ e: "text", how: f.name, size: f.size, begin: out(scale(toLin(args[0]), f.size)), end: out(scale(toLin(args[1]), f.size)), at: where(n), method }); return { k: "data", id: "slice#" + (++counter) }; }
        return fresh("view");
    }
    if (f && f.k === "fn" && depth < 12) {
        if (f.node.generator) return fresh("gen");
        depth++;
        const env = { vars: {}, parent: f.env && f.env.vars ? f.env : null, self: f.node.type === "ArrowFunctionExpression" ? f.env.self : f.env.self };
        f.node.params.forEach((p, i) => bind(p, i < args.length ? args[i] : { k: "undef" }, env));
        let r;
        if (f.node.body.type === "BlockStatement") r = run(f.node.body.body, env);
        else r = new Ret(ev(f.node.body, env));
        depth--;
        return r instanceof Ret ? r.v : undefined;
    }
    if (f && f.k === "or") { const v = f.v.map(x => call(x, args, n)); return v[0]; }
    if (f && f.k === "path" && /(^|\.)(encode)$/.test(f.p)) return { k: "data", id: "bytes:" + str(args[0]) };
    if (f && f.k === "path" && /^Math\.(floor|trunc)$/.test(f.p) && args[0]) return isLin(args[0]) ? args[0] : toLin(args[0]);
    if (f && f.k === "path" && f.p === "Number" && args[0]) return args[0];
    return fresh("call:" + str(f));
}
function refs(v) { return v; }
const merge = (a, b) => a === undefined ? b : b === undefined ? a : str(a) === str(b) ? a : { k: "or", v: [].concat(a.k === "or" ? a.v : [a], b.k === "or" ? b.v : [b]).slice(0, 4) };
function ev(n, env) {
    if (!n) return undefined;
    switch (n.type) {
    case "Literal": return typeof n.value === "number" ? num(n.value) : typeof n.value === "string" ? { k: "str", s: n.value } : typeof n.value === "boolean" ? { k: "bool", b: n.value } : n.value === null ? { k: "null" } : fresh("lit");
    case "TemplateLiteral": n.expressions.forEach(e => ev(e, env)); return { k: "str", s: "`" };
    case "TaggedTemplateExpression": return fresh("tag");
    case "Identifier": return n.name === "undefined" ? { k: "undef" } : lookup(env, n.name);
    case "ThisExpression": { for (let e = env; e; e = e.parent) if (e.self) return e.self; return { k: "path", p: "this" }; }
    case "ChainExpression": case "AwaitExpression": return ev(n.expression || n.argument, env);
    case "ParenthesizedExpression": return ev(n.expression, env);
    case "MemberExpression": {
        const o = ev(n.object, env);
        if (n.computed) return index(o, ev(n.property, env), n, env);
        return member(o, n.property.type === "PrivateIdentifier" ? "#" + n.property.name : n.property.name, n, env);
    }
    case "CallExpression": {
        const f = ev(n.callee, env);
        const args = [];
        for (const a of n.arguments) {
            if (a.type === "SpreadElement") { const v = ev(a.argument, env); if (v && v.k === "obj" && v.arr !== undefined) for (let i = 0; i < v.arr; ++i) args.push(v.f[i]); else args.push({ k: "spread" }); }
            else args.push(ev(a, env));
        }
        // callbacks given to functions outside are evaluated with unknown arguments
        if (!f || f.k === "path" || (f.k === "lin")) for (const a of args) callbacks(a, n, 0);
        return call(f, args, n);
    }
    case "NewExpression": {
        const args = n.arguments.map(a => ev(a, env));
        if (n.callee.name in VIEW && args.length <= 1) {
            // over the memory of the module or over data of its own
            const s = str(args[0]);
            if (/memory|buffer/.test(s)) return { k: "view", size: VIEW[n.callee.name] };
            return { k: "data", id: "new#" + (++counter) };
        }
        if (n.callee.name in VIEW) { events.push({ e: "text", how: "new", size: 1, begin: out(toLin(args[1])), end: out(args[2] ? add(toLin(args[1]), toLin(args[2]), 1) : fresh("end")), at: where(n), method }); return { k: "data", id: "new#" + (++counter) }; }
        if (n.callee.name in classes) { const c = classes[n.callee.name]; const self = { k: "this", c, obj: {} }; if (c.methods.constructor) call({ k: "fn", node: c.methods.constructor, env: { vars: {}, self } }, args, n); return self; }
        return { k: "path", p: "new " + (n.callee.name || "?") };
    }
    case "ArrowFunctionExpression": case "FunctionExpression": { return { k: "fn", node: n, env: { vars: env.vars, parent: env.parent, self: (() => { for (let e = env; e; e = e.parent) if (e.self) return e.self; return null; })() } }; }
    case "ObjectExpression": { const f = {}; for (const p of n.properties) if (p.type === "Property" && !p.computed) f[p.key.name || p.key.value] = p.kind === "init" ? ev(p.value, env) : undefined; else if (p.type === "SpreadElement") ev(p.argument, env); return { k: "obj", f }; }
    case "ArrayExpression": { const f = {}; n.elements.forEach((x, i) => { if (x) f[i] = ev(x.type === "SpreadElement" ? x.argument : x, env); }); return { k: "obj", f, arr: n.elements.length }; }
    case "ConditionalExpression": {
        const t = ev(n.test, env); const a = ev(n.consequent, env), b = ev(n.alternate, env); void t; return merge(a, b);
    }
    case "LogicalExpression": { const a = ev(n.left, env), b = ev(n.right, env); return n.operator === "&&" ? b : merge(a, b); }
    case "SequenceExpression": { let v; for (const e of n.expressions) v = ev(e, env); return v; }
    case "UnaryExpression": { const a = ev(n.argument, env); if (n.operator === "-" && isLin(a)) return scale(a, -1); if (n.operator === "+" && a) return a; return fresh("un"); }
    case "UpdateExpression": { if (n.argument.type === "Identifier") { const o = lookup(env, n.argument.name); const nv = isLin(o) ? add(o, num(1), n.operator === "++" ? 1 : -1) : fresh("upd"); assign(env, n.argument.name, nv); return n.prefix ? nv : o; } return fresh("upd"); }
    case "BinaryExpression": {
        let a = ev(n.left, env), b = ev(n.right, env);
        if (["===", "!==", "==", "!="].includes(n.operator)) { events.push({ e: "compare", op: n.operator, a: out(a), b: out(b), at: where(n), method }); return fresh("cmp"); }
        if (["<", ">", "<=", ">=", "in", "instanceof"].includes(n.operator)) return fresh("cmp");
        if (n.operator === "+" && ((a && a.k === "str") || (b && b.k === "str"))) return { k: "str", s: "`" };
        if (n.operator === "|" && isNum(b) && b.c === 0) return toLin(a);
        return arith(n.operator, a, b);
    }
    case "AssignmentExpression": {
        let v = ev(n.right, env);
        if (n.operator !== "=") {
            const old = ev(n.left, env); const op = n.operator.slice(0, -1);
            v = op === "??" || op === "||" ? merge(old, v) : op === "&&" ? v : arith(op, old, v);
        }
        if (n.left.type === "Identifier") assign(env, n.left.name, v);
        else if (n.left.type === "MemberExpression") {
            const o = ev(n.left.object, env);
            if (n.left.computed) {
                const i = ev(n.left.property, env);
                if (o && o.k === "view" && o.size) store(o.size, scale(toLin(i), o.size), v, n);
                else if (o && o.k === "obj" && i && (isNum(i) || i.k === "str")) o.f[isNum(i) ? i.c : i.s] = v;
            } else if (o && o.k === "this" && o.obj && !(n.left.property.name in views)) {
                // fields keep their symbolic name unless they are constants
                if (isNum(v) || (v && v.k === "exports")) o.obj[n.left.property.name] = v;
            } else if (o && o.k === "obj") o.f[n.left.property.name] = v;
        } else bind(n.left, v, env);
        return v;
    }
    case "ClassExpression": case "ImportExpression": case "MetaProperty": case "Super": return fresh("other");
    case "SpreadElement": ev(n.argument, env); return { k: "spread" };
    }
    return fresh("expr");
}
function arith(op, a, b) {
    const A = a && a.k === "or" ? fresh("or") : toLin(a), B = b && b.k === "or" ? fresh("or") : toLin(b);
    switch (op) {
    case "+": return add(A, B, 1);
    case "-": return add(A, B, -1);
    case "*": return isNum(A) ? scale(B, A.c) : isNum(B) ? scale(A, B.c) : atom("(" + str(A) + ")*(" + str(B) + ")");
    case "/": return isNum(B) && B.c !== 0 ? scale(A, 1 / B.c) : atom("(" + str(A) + ")/(" + str(B) + ")");
    case "<<": return isNum(B) ? scale(A, 2 ** B.c) : fresh("op");
    case ">>": case ">>>": return isNum(B) ? scale(A, 1 / 2 ** B.c) : fresh("op");
    case "%": case "&": case "|": case "^": case "**": return isNum(A) && isNum(B) ? num({ "%": A.c % B.c, "&": A.c & B.c, "|": A.c | B.c, "^": A.c ^ B.c, "**": A.c ** B.c }[op]) : fresh("op");
    }
    return fresh("op");
}
// statements: a Ret ends the sequence; both arms of a branch are evaluated, and what they leave in variables is merged
function snapshot(env) { const s = []; for (let e = env; e; e = e.parent) s.push([e, { ...e.vars }]); return s; }
function branch(arms, env) {
    const before = snapshot(env);
    const results = [];
    for (const arm of arms) {
        for (const [e, v] of before) e.vars = { ...v };
        const r = arm ? exec(arm, { vars: {}, parent: env }) : undefined;
        results.push([r, snapshot(env)]);
    }
    const live = results.filter(x => x[0] === undefined);
    const use = live.length ? live : results;
    before.forEach(([e], i) => {
        const keys = new Set(use.flatMap(u => Object.keys(u[1][i][1])));
        const m = {};
        for (const k of keys) m[k] = use.map(u => u[1][i][1][k]).reduce((a, b) => merge(a, b));
        e.vars = m;
    });
    if (!live.length) { const v = results.map(r => r[0] instanceof Ret ? r[0].v : undefined).filter(v => v !== undefined); return results.some(r => r[0] instanceof Ret) ? new Ret(v.length ? v.reduce(merge) : undefined) : results[0][0]; }
    const rets = results.filter(x => x[0] instanceof Ret).map(x => x[0].v);
    if (rets.length) { for (let e = env; e; e = e.parent) if (!e.parent || e.fnTop) { (e.rets = e.rets || []).push(...rets); break; } env.early = (env.early || []).concat(rets); }
    return undefined;
}
function run(stmts, env) {
    let r;
    for (const s of stmts) { r = exec(s, env); if (r !== undefined) break; }
    if (r instanceof Ret && env.early && env.early.length) return new Ret([...env.early, r.v].filter(v => v !== undefined).reduce((a, b) => merge(a, b), undefined));
    if (r === undefined && env.early && env.early.length) return undefined;
    return r;
}
const THROW = { throw: true };
function exec(n, env) {
    if (!n) return undefined;
    switch (n.type) {
    case "ExpressionStatement": ev(n.expression, env); return undefined;
    case "VariableDeclaration": for (const d of n.declarations) bind(d.id, d.init ? ev(d.init, env) : { k: "undef" }, env); return undefined;
    case "FunctionDeclaration": env.vars[n.id.name] = { k: "fn", node: n, env }; return undefined;
    case "ReturnStatement": return new Ret(ev(n.argument, env));
    case "ThrowStatement": ev(n.argument, env); return THROW;
    case "BlockStatement": { const e = { vars: {}, parent: env }; const r = run(n.body, e); if (e.early) env.early = (env.early || []).concat(e.early); return r; }
    case "IfStatement": ev(n.test, env); return branch([n.consequent, n.alternate], env);
    case "TryStatement": {
        const r = exec(n.block, env);
        if (n.handler) branch([n.handler.body, null], env);
        if (n.finalizer) { const f = exec(n.finalizer, env); if (f instanceof Ret) return f; }
        return r === THROW && n.handler ? undefined : r;
    }
    case "ForStatement": {
        const e = { vars: {}, parent: env };
        if (n.init) n.init.type === "VariableDeclaration" ? exec(n.init, e) : ev(n.init, e);
        // the loop variable takes any value
        if (n.init && n.init.type === "VariableDeclaration") for (const d of n.init.declarations) if (d.id.type === "Identifier" && n.update && JSON.stringify(n.update).includes('"' + d.id.name + '"')) e.vars[d.id.name] = fresh("i");
        if (n.test) ev(n.test, e);
        branch([n.body, null], e);
        if (e.early) env.early = (env.early || []).concat(e.early);
        if (n.update) ev(n.update, e);
        return undefined;
    }
    case "ForOfStatement": case "ForInStatement": { const e = { vars: {}, parent: env }; ev(n.right, env); bind(n.left.type === "VariableDeclaration" ? n.left.declarations[0].id : n.left, fresh("i"), e); branch([n.body, null], e); return undefined; }
    case "WhileStatement": {
        const e = { vars: {}, parent: env };
        // variables changed in the loop take any value
        const body = JSON.stringify(n.body);
        for (let x = env; x; x = x.parent) for (const k in x.vars) if (isLin(x.vars[k]) && new RegExp('"(left|argument)":\\{"type":"Identifier","start":\\d+,"end":\\d+,"loc":\\{[^}]*\\}[^}]*\\}[^}]*\\},"name":"' + k + '"').test(body)) x.vars[k] = fresh("i");
        ev(n.test, e); branch([n.body, null], e); return undefined;
    }
    case "DoWhileStatement": { const r = exec(n.body, { vars: {}, parent: env }); ev(n.test, env); return r; }
    case "SwitchStatement": { ev(n.discriminant, env); branch([...n.cases.map(c => ({ type: "BlockStatement", body: c.consequent })), null], env); return undefined; }
    case "LabeledStatement": return exec(n.body, env);
    }
    return undefined;
}
for (const c of Object.values(classes)) {
    for (const [name, node] of [...Object.entries(c.methods)]) {
        if (!node || name === "constructor") continue;
        method = c.name + "." + name;
        const self = { k: "this", c, obj: {} };
        events.push({ e: "method", name: method, at: where(node) });
        call({ k: "fn", node, env: { vars: {}, self } }, node.params.map((p, i) => p.type === "AssignmentPattern" ? undefined : p.type === "ObjectPattern" ? undefined : atom("param:" + (p.name || i))).map(v => v && { k: "path", p: Object.keys(v.t)[0] }), node);
    }
}
process.stdout.write(JSON.stringify({ views, classes: Object.keys(classes), events }));
