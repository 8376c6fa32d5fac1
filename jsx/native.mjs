// Runs the real scripts in node over a small document model of its own.
// stdin: {tree, staticDir, display, url, clipboard, failing, viewport, geometry, actions}
// stdout: the state afterwards.
import { registerHooks } from "node:module";
import { pathToFileURL } from "node:url";
import path from "node:path";
import { writeSync } from "node:fs";

let input = "";
for await (const chunk of process.stdin) input += chunk;
const job = JSON.parse(input);
const unmodelled = new Set();
const errors = [], scrolls = [], copied = [], timers = [], observers = [];
function out(s) {
  let b = Buffer.from(s);
  while (b.length) try { b = b.subarray(writeSync(1, b)); } catch (e) { if (e.code != "EAGAIN") throw e; }
}
console.log = console.warn = console.error = console.info = console.debug = () => {};

registerHooks({
  resolve(spec, context, next) {
    if (spec.startsWith("/static/")) return { url: pathToFileURL(path.join(job.staticDir, spec.slice(8))).href, format: "module", shortCircuit: true };
    return next(spec, context);
  },
});

// --- selectors -------------------------------------------------------------------------
class Sel {
  constructor(s) { this.s = s; this.i = 0; }
  fail() { throw new SyntaxError(`'${this.s}' is not a valid selector.`); }
  ws() { const j = this.i; while (/[ \t\r\n\f]/.test(this.s[this.i] ?? "x")) this.i++; return this.i > j; }
  re(r) { r = new RegExp(r, "y"); r.lastIndex = this.i; const m = r.exec(this.s); if (m) this.i = r.lastIndex; return m; }
  ident() { const m = this.re("-{0,2}(?:[_a-zA-Z\\u0080-\\uffff]|\\\\.)(?:[\\w\\-\\u0080-\\uffff]|\\\\.)*"); if (!m) this.fail(); return m[0].replace(/\\(.)/g, "$1"); }
  list(rel, end) {
    const r = [];
    for (;;) {
      r.push(this.complex(rel)); this.ws();
      const c = this.s[this.i] ?? "";
      if (c == ",") { this.i++; continue; }
      if (c != end) this.fail();
      return r;
    }
  }
  complex(rel) {
    this.ws();
    let comb = rel ? " " : "";
    const m = this.re("[>+~]");
    if (m) { if (!rel) this.fail(); comb = m[0]; this.ws(); }
    const parts = [];
    for (;;) {
      parts.push([comb, this.compound()]);
      const sp = this.ws(), c = this.s[this.i] ?? "";
      if (c && ">+~".includes(c)) { comb = c; this.i++; this.ws(); }
      else if (c == "" || c == "," || c == ")") return parts;
      else if (sp) comb = " ";
      else this.fail();
    }
  }
  compound() {
    const ts = [];
    for (;;) {
      const c = this.s[this.i] ?? "";
      if (c == "*") { this.i++; ts.push(() => true); }
      else if (c == "&") { this.i++; ts.push((e, sc) => e === sc); }
      else if (c == ".") { this.i++; const n = this.ident(); ts.push(e => e.classes.has(n)); }
      else if (c == "#") { this.i++; const m = this.re("(?:[\\w\\-\\u0080-\\uffff]|\\\\.)+"); if (!m || /^\d/.test(m[0])) this.fail(); const n = m[0].replace(/\\(.)/g, "$1"); ts.push(e => e.attrs.get("id") === n); }
      else if (c == "[") {
        const m = this.re("\\[\\s*([\\w\\-:]+)\\s*(?:([~|^$*]?=)\\s*(?:\"([^\"]*)\"|'([^']*)'|([\\w\\-]+))\\s*[iIsS]?\\s*)?\\]");
        if (!m) this.fail();
        const [, n, op] = m, v = m[3] ?? m[4] ?? m[5];
        ts.push(e => {
          const h = e.getAttribute(n);
          if (h === null) return false;
          switch (op) {
            case undefined: return true;
            case "=": return h === v;
            case "~=": return h.split(/\s+/).includes(v);
            case "^=": return v && h.startsWith(v);
            case "$=": return v && h.endsWith(v);
            case "*=": return v && h.includes(v);
            case "|=": return h === v || h.startsWith(v + "-");
          }
        });
      }
      else if (c == ":") {
        this.i++;
        const elem = this.s[this.i] == ":"; if (elem) this.i++;
        const n = this.ident().toLowerCase();
        if (elem || n == "before" || n == "after") { ts.push(() => false); continue; }
        if (this.s[this.i] == "(") {
          this.i++;
          if (["not", "is", "where", "matches"].includes(n)) { const l = this.list(false, ")"); this.i++; ts.push(n == "not" ? (e, s) => !any(e, l, s) : (e, s) => any(e, l, s)); }
          else if (n == "has") { const l = this.list(true, ")"); this.i++; ts.push((e, s) => l.some(r => hasRel(e, r, s))); }
          else { const j = this.s.indexOf(")", this.i); if (j < 0 || !n.startsWith("nth")) this.fail(); const f = this.s.slice(this.i, j).trim(); this.i = j + 1; ts.push(e => nth(e, n, f)); }
        } else ts.push((e, s) => pseudo(e, n, s));
      }
      else if (c && /[a-zA-Z_]/.test(c)) { if (ts.length) this.fail(); const n = this.ident().toLowerCase(); ts.push(e => e.tag === n); }
      else break;
    }
    if (!ts.length) this.fail();
    return ts;
  }
}
const sibs = e => e.parent ? e.parent.elements() : [e];
function nth(e, name, f) {
  let xs = sibs(e); if (name.endsWith("of-type")) xs = xs.filter(x => x.tag === e.tag);
  let k = xs.indexOf(e) + 1; if (name.includes("last")) k = xs.length - k + 1;
  f = f.replace(/ /g, "").toLowerCase(); f = { odd: "2n+1", even: "2n" }[f] ?? f;
  const m = /^(?:([+-]?\d*)n([+-]\d+)?|([+-]?\d+))$/.exec(f);
  if (!m) throw new SyntaxError(f);
  if (m[3]) return k == +m[3];
  const a = m[1] == "" || m[1] == "+" ? 1 : m[1] == "-" ? -1 : +m[1], b = +(m[2] ?? 0);
  return a ? (k - b) * a >= 0 && (k - b) % a == 0 : k == b;
}
function pseudo(e, n, sc) {
  const xs = sibs(e), same = xs.filter(x => x.tag === e.tag);
  switch (n) {
    case "scope": return e === sc;
    case "root": return e === root;
    case "first-child": return xs[0] === e;
    case "last-child": return xs.at(-1) === e;
    case "only-child": return xs.length == 1;
    case "first-of-type": return same[0] === e;
    case "last-of-type": return same.at(-1) === e;
    case "only-of-type": return same.length == 1;
    case "empty": return !e.kids.length;
    case "focus": case "focus-visible": return document.activeElement === e;
    case "focus-within": return e.contains(document.activeElement);
    case "hover": case "active": case "visited": case "target": return false;
    case "disabled": case "checked": return e.attrs.has(n);
    case "enabled": return !e.attrs.has("disabled");
    case "link": case "any-link": return e.tag == "a" && e.attrs.has("href");
  }
  throw new SyntaxError(n);
}
const all = (e, ts, s) => ts.every(t => t(e, s));
function match(e, parts, s, i = parts.length - 1) {
  const [comb, ts] = parts[i];
  if (!all(e, ts, s)) return false;
  if (i == 0) return true;
  if (comb == ">") return e.parent instanceof El && match(e.parent, parts, s, i - 1);
  if (comb == " ") { for (let p = e.parent; p instanceof El; p = p.parent) if (match(p, parts, s, i - 1)) return true; return false; }
  const xs = sibs(e), k = xs.indexOf(e);
  return (comb == "+" ? xs.slice(Math.max(0, k - 1), k) : xs.slice(0, k)).some(x => match(x, parts, s, i - 1));
}
function hasRel(e, rel, s) {
  let cur = [e];
  for (const [comb, ts] of rel) {
    cur = cur.flatMap(a => comb == ">" ? a.elements() : comb == " " ? a.all() : (x => { const k = x.indexOf(a); return comb == "+" ? x.slice(k + 1, k + 2) : x.slice(k + 1); })(sibs(a))).filter(x => all(x, ts, s));
  }
  return cur.length > 0;
}
const any = (e, l, s) => l.some(p => match(e, p, s));
const cache = new Map();
function parse(s) { s = String(s).trim(); if (!cache.has(s)) cache.set(s, new Sel(s).list(false, "")); return cache.get(s); }

// --- document --------------------------------------------------------------------------
class Target {
  L = [];
  addEventListener(k, f, o) { const c = o === true || !!o?.capture; if (!this.L.some(x => x.k == k && x.f === f && x.c == c)) this.L.push({ k, f, once: !!o?.once, c }); }
  removeEventListener(k, f, o) { const c = o === true || !!o?.capture; this.L = this.L.filter(x => !(x.k == k && x.f === f && x.c == c)); }
  dispatchEvent(ev) { dispatch(this, ev); return !ev.prevented; }
}
class Ev {
  constructor(type, o = {}) { const { bubbles = false, ...r } = o; Object.assign(this, r); this.type = type; this.bubbles = bubbles; }
  preventDefault() { this.prevented = true; }
  get defaultPrevented() { return !!this.prevented; }
  stopPropagation() { this.stopped = true; }
  stopImmediatePropagation() { this.stopped = this.now = true; }
  composedPath() { return this.path; }
}
function dispatch(t, ev) {
  ev.target = t;
  const p = ev.path = [];
  for (let n = t; n; n = n.parent) p.push(n);
  if (p.at(-1) === document) p.push(win);
  const steps = [...p.toReversed().map(n => [n, true]), ...(ev.bubbles ? p : p.slice(0, 1)).map(n => [n, false])];
  for (const [n, cap] of steps) {
    if (ev.stopped) break;
    ev.currentTarget = n === win ? globalThis : n;
    for (const l of [...n.L]) {
      if (l.k != ev.type || l.c != cap || ev.now || !n.L.includes(l)) continue;
      if (l.once) n.L = n.L.filter(x => x !== l);
      try { typeof l.f == "function" ? l.f.call(ev.currentTarget, ev) : l.f.handleEvent(ev); } catch (e) { errors.push(String(e)); }
    }
    if (!cap && n !== win && typeof n["on" + ev.type] == "function") try { n["on" + ev.type](ev); } catch (e) { errors.push(String(e)); }
  }
}
class N extends Target {
  parent = null; kids = [];
  insertAt(i, ns) {
    for (const c of ns) {
      if (!(c instanceof N)) throw new TypeError("parameter 1 is not of type 'Node'.");
      if (c.contains(this)) throw new Error("HierarchyRequestError");
      if (c.parent === this && this.kids.indexOf(c) < i) i--;
      c.remove(); this.kids.splice(i++, 0, c); c.parent = this;
      if (c instanceof El) for (const e of [c, ...c.all()])
        if (e.tag == "script" && e.attrs.get("src") && e.isConnected && !e.loaded) { e.loaded = true; pending.push(() => fire(e, job.failing.some(f => e.attrs.get("src").includes(f)) ? "error" : "load", {}, false)); }
    }
  }
  elements() { return this.kids.filter(k => k instanceof El); }
  all() { return this.elements().flatMap(e => [e, ...e.all()]); }
  toNodes(a) { return a.map(x => x instanceof N ? x : new Txt(String(x))); }
  appendChild(c) { this.insertAt(this.kids.length, [c]); return c; }
  append(...a) { this.insertAt(this.kids.length, this.toNodes(a)); }
  prepend(...a) { this.insertAt(0, this.toNodes(a)); }
  insertBefore(c, r) { this.insertAt(r ? this.kids.indexOf(r) : this.kids.length, [c]); return c; }
  removeChild(c) { if (c.parent !== this) throw new Error("NotFoundError"); c.remove(); return c; }
  replaceChildren(...a) { for (const k of [...this.kids]) k.remove(); this.append(...a); }
  remove() {
    if (!this.parent) return;
    this.parent.kids.splice(this.parent.kids.indexOf(this), 1); this.parent = null;
    if (this.contains(document.activeElement)) document.activeElement = body;
  }
  before(...a) { this.parent.insertAt(this.parent.kids.indexOf(this), this.toNodes(a)); }
  after(...a) { this.parent.insertAt(this.parent.kids.indexOf(this) + 1, this.toNodes(a)); }
  replaceWith(...a) { const p = this.parent, i = p.kids.indexOf(this); this.remove(); p.insertAt(i, this.toNodes(a)); }
  contains(n) { for (; n; n = n.parent) if (n === this) return true; return false; }
  getRootNode() { let n = this; while (n.parent) n = n.parent; return n; }
  get isConnected() { return this.getRootNode() === document; }
  get ownerDocument() { return document; }
  get parentNode() { return this.parent; }
  get parentElement() { return this.parent instanceof El ? this.parent : null; }
  get nextSibling() { return this.parent?.kids[this.parent.kids.indexOf(this) + 1] ?? null; }
  get previousSibling() { return this.parent?.kids[this.parent.kids.indexOf(this) - 1] ?? null; }
  get nextElementSibling() { return this.parent?.kids.slice(this.parent.kids.indexOf(this) + 1).find(k => k instanceof El) ?? null; }
  get previousElementSibling() { return this.parent?.kids.slice(0, this.parent.kids.indexOf(this)).findLast(k => k instanceof El) ?? null; }
  get childNodes() { return [...this.kids]; }
  get children() { return this.elements(); }
  get childElementCount() { return this.elements().length; }
  get firstChild() { return this.kids[0] ?? null; }
  get lastChild() { return this.kids.at(-1) ?? null; }
  get firstElementChild() { return this.elements()[0] ?? null; }
  get lastElementChild() { return this.elements().at(-1) ?? null; }
  hasChildNodes() { return this.kids.length > 0; }
  get textContent() { return this.kids.map(k => k.textContent).join(""); }
  querySelectorAll(s) { const l = parse(s), sc = this instanceof El ? this : root; return this.all().filter(e => any(e, l, sc)); }
  querySelector(s) { return this.querySelectorAll(s)[0] ?? null; }
  getElementsByClassName(s) { return this.querySelectorAll(s.trim().split(/\s+/).map(x => "." + x).join("")); }
  getElementsByTagName(s) { return this.querySelectorAll(s); }
  getElementById(i) { return this.all().find(e => e.attrs.get("id") === i) ?? null; }
}
class Txt extends N {
  constructor(d) { super(); this.data = d; }
  nodeType = 3; nodeName = "#text";
  get textContent() { return this.data; }
  set textContent(v) { this.data = String(v ?? ""); }
  get nodeValue() { return this.data; }
  cloneNode() { return new Txt(this.data); }
}
class CL {
  constructor(e) { this.e = e; }
  check(t) { t = String(t); if (!t || /\s/.test(t)) throw new Error("InvalidCharacterError"); return t; }
  contains(t) { return this.e.classes.has(t); }
  add(...ts) { for (const t of ts) this.e.classes.add(this.check(t)); }
  remove(...ts) { for (const t of ts) this.e.classes.delete(this.check(t)); }
  toggle(t, f) { f ??= !this.contains(this.check(t)); f ? this.add(t) : this.remove(t); return !!f; }
  replace(a, b) { if (!this.contains(a)) return false; this.e.classes = new Set([...this.e.classes].map(x => x === a ? b : x)); return true; }
  item(i) { return [...this.e.classes][i] ?? null; }
  get length() { return this.e.classes.size; }
  get value() { return [...this.e.classes].join(" "); }
  forEach(f, t) { [...this.e.classes].forEach((x, i) => f.call(t, x, i, this)); }
  values() { return this.e.classes.values(); }
  toString() { return this.value; }
  [Symbol.iterator]() { return [...this.e.classes][Symbol.iterator](); }
}
const dash = k => k.replace(/[A-Z]/g, c => "-" + c.toLowerCase());
const styles = d => new Proxy(d, {
  get(_, k) {
    if (k == "setProperty") return (a, v) => putStyle(d, a, v);
    if (k == "getPropertyValue") return a => d.get(a) ?? "";
    if (k == "removeProperty") return a => { const v = d.get(a) ?? ""; d.delete(a); return v; };
    if (k == "cssText") return [...d].map(([a, b]) => `${a}: ${b};`).join(" ");
    return d.get(dash(String(k))) ?? "";
  },
  set(_, k, v) { if (k == "cssText") cssText(d, v); else putStyle(d, dash(k), v); return true; },
});
const putStyle = (d, k, v) => (v == null || v === "") ? d.delete(k) : d.set(k, String(v));
const cssText = (d, t) => { d.clear(); for (const p of String(t).split(";")) { const i = p.indexOf(":"); if (i > 0) putStyle(d, p.slice(0, i).trim(), p.slice(i + 1).trim()); } };
const VOID = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"]);
const INLINE = new Set(["a", "span", "em", "strong", "i", "b", "code", "img", "input", "button", "label", "select", "textarea", "svg", "sub", "sup", "small", "u", "s", "del", "ins", "br"]);
const esc = s => String(s).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
class El extends N {
  nodeType = 1; attrs = new Map(); classes = new Set(); sd = new Map();
  constructor(tag) { super(); this.tag = tag; this.style_ = styles(this.sd); }
  get style() { return this.style_; }
  set style(v) { cssText(this.sd, v); }
  get classList() { return new CL(this); }
  get className() { return [...this.classes].join(" "); }
  set className(v) { this.classes = new Set(String(v).split(/\s+/).filter(Boolean)); }
  get tagName() { return this.tag.toUpperCase(); }
  get nodeName() { return this.tagName; }
  get localName() { return this.tag; }
  get dataset() { const a = this.attrs; return new Proxy({}, { get: (_, k) => a.get("data-" + dash(String(k))), set: (_, k, v) => (a.set("data-" + dash(k), String(v)), true), has: (_, k) => a.has("data-" + dash(k)), deleteProperty: (_, k) => (a.delete("data-" + dash(k)), true) }); }
  getAttribute(k) { k = k.toLowerCase(); if (k == "class") return this.classes.size ? this.className : null; if (k == "style") return this.sd.size ? this.style.cssText : null; return this.attrs.get(k) ?? null; }
  setAttribute(k, v) { k = k.toLowerCase(); if (k == "class") this.className = v; else if (k == "style") this.style = v; else this.attrs.set(k, String(v)); }
  removeAttribute(k) { k = k.toLowerCase(); if (k == "class") this.classes = new Set(); else if (k == "style") this.sd.clear(); else this.attrs.delete(k); }
  hasAttribute(k) { return this.getAttribute(k) !== null; }
  toggleAttribute(k, f) { f ??= !this.hasAttribute(k); f ? this.setAttribute(k, "") : this.removeAttribute(k); return f; }
  get hidden() { return this.attrs.has("hidden"); }
  set hidden(v) { this.toggleAttribute("hidden", !!v); }
  get tabIndex() { const t = this.attrs.get("tabindex"); return /^-?\d+$/.test(t ?? "") ? +t : ["a", "button", "input"].includes(this.tag) ? 0 : -1; }
  set tabIndex(v) { this.attrs.set("tabindex", String(v)); }
  get disabled() { return this.attrs.has("disabled"); }
  get textContent() { return super.textContent; }
  set textContent(v) { this.replaceChildren(); v = String(v ?? ""); if (v) this.append(v); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  get innerHTML() { return this.kids.map(html).join(""); }
  set innerHTML(v) { this.replaceChildren(); this.insertAt(0, parseHTML(String(v ?? ""))); }
  get outerHTML() { return html(this); }
  insertAdjacentHTML(w, t) { this.adjacent(w, parseHTML(String(t))); }
  insertAdjacentElement(w, e) { this.adjacent(w, [e]); return e; }
  adjacent(w, ns) { w = w.toLowerCase(); const p = this.parent; if (w == "beforebegin") p.insertAt(p.kids.indexOf(this), ns); else if (w == "afterbegin") this.insertAt(0, ns); else if (w == "beforeend") this.insertAt(this.kids.length, ns); else p.insertAt(p.kids.indexOf(this) + 1, ns); }
  cloneNode(deep) { const e = new El(this.tag); e.attrs = new Map(this.attrs); e.classes = new Set(this.classes); for (const [k, v] of this.sd) e.sd.set(k, v); if (deep) e.insertAt(0, this.kids.map(k => k.cloneNode(true))); return e; }
  matches(s) { return any(this, parse(s), this); }
  closest(s) { const l = parse(s); for (let e = this; e instanceof El; e = e.parent) if (any(e, l, this)) return e; return null; }
  click() { fire(this, "click"); }
  focus() {
    const ok = this.attrs.has("tabindex") || this.tag == "a" && this.attrs.has("href") || ["button", "input", "textarea", "select"].includes(this.tag) && !this.disabled;
    if (ok && document.activeElement !== this && this.isConnected && displayed(this)) { document.activeElement = this; fire(this, "focus", {}, false); }
  }
  blur() { if (document.activeElement === this) document.activeElement = body; }
  getBoundingClientRect() { const [top, height] = geo.get(this) ?? [0, 0]; return { top, height, bottom: top + height, y: top, left: 0, x: 0, right: 100, width: 100 }; }
  get offsetHeight() { return (geo.get(this) ?? [0, 0])[1]; }
  get clientHeight() { return this.offsetHeight; }
  get offsetTop() { return (geo.get(this) ?? [0, 0])[0]; }
  get offsetParent() { return this.parentElement; }
  scrollIntoView() { scrolls.push(["into", null]); }
  animate() { return {}; }
}
for (const p of ["id", "title", "href", "src", "type", "name", "rel", "lang", "alt"])
  Object.defineProperty(El.prototype, p, { get() { return this.attrs.get(p) ?? ""; }, set(v) { this.attrs.set(p, String(v)); }, configurable: true });
function html(n) {
  if (n instanceof Txt) return esc(n.data);
  const at = [...(n.classes.size ? [["class", n.className]] : []), ...(n.sd.size ? [["style", n.style.cssText]] : []), ...n.attrs].map(([k, v]) => ` ${k}="${esc(v).replace(/"/g, "&quot;").replace(/'/g, "&#x27;")}"`).join("");
  return VOID.has(n.tag) ? `<${n.tag}${at}>` : `<${n.tag}${at}>${n.innerHTML}</${n.tag}>`;
}
const unesc = s => s.replace(/&(#x[0-9a-f]+|#\d+|\w+);/gi, (m, e) => e[0] == "#" ? String.fromCodePoint(e[1].toLowerCase() == "x" ? parseInt(e.slice(2), 16) : +e.slice(1)) : ({ amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" })[e] ?? m);
function parseHTML(s) {
  const top = [], st = [];
  const put = n => { if (st.length) { n.parent = st.at(-1); st.at(-1).kids.push(n); } else top.push(n); };
  const re = /<!--[^]*?-->|<\/([a-zA-Z][\w-]*)\s*>|<([a-zA-Z][\w-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>/g;
  let last = 0, m;
  while ((m = re.exec(s))) {
    if (m.index > last) put(new Txt(unesc(s.slice(last, m.index))));
    last = re.lastIndex;
    if (m[1]) { const t = m[1].toLowerCase(); for (let i = st.length - 1; i >= 0; i--) if (st[i].tag === t) { st.length = i; break; } }
    else if (m[2]) {
      const e = new El(m[2].toLowerCase());
      for (const a of m[3].matchAll(/([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) if (!e.hasAttribute(a[1])) e.setAttribute(a[1], unesc(a[2] ?? a[3] ?? a[4] ?? ""));
      const svg = e.tag == "svg" || st.some(x => x.tag == "svg");
      put(e);
      if (!VOID.has(e.tag) && !(m[4] && svg)) st.push(e);
    }
  }
  if (last < s.length) put(new Txt(unesc(s.slice(last))));
  return top;
}
class Doc extends N {
  nodeType = 9; readyState = "complete";
  get documentElement() { return root; } get body() { return body; } get head() { return head; }
  get defaultView() { return globalThis; } get location() { return location_; }
  createElement(t) { return new El(String(t).toLowerCase()); }
  createElementNS(_, t) { return new El(String(t)); }
  createTextNode(s) { return new Txt(String(s)); }
}
// names that browsers know and this model does not
const HARMLESS = new Set(["async", "defer", "crossOrigin", "integrity", "referrerPolicy", "fetchPriority", "charset", "role"]);
function gaps(o, names) {
  for (const k of names ?? []) {
    if (k in o || k.startsWith("on")) continue;
    Object.defineProperty(o, k, {
      configurable: true,
      get() { unmodelled.add(k); return undefined; },
      set(v) { if (!HARMLESS.has(k) && !k.startsWith("aria")) unmodelled.add(k); Object.defineProperty(this, k, { value: v, writable: true, configurable: true }); },
    });
  }
}
const NM = job.names ?? {};
const fields = new Set(["parent", "kids", "attrs", "classes", "L", "tag", "data", "nodeType", "nodeName", "readyState", "activeElement", ...Object.keys(new Ev(""))]);
for (const [C, n] of [[El, "Element"], [Doc, "Document"], [Txt, "Text"], [CL, "ClassList"]])
  gaps(C.prototype, NM[n]?.filter(k => !fields.has(k)));
const given = new Set(["key", "keyCode", "code", "shiftKey", "ctrlKey", "metaKey", "altKey", "repeat", "button", "target", "currentTarget", "type", "bubbles", "isTrusted"]);
gaps(Ev.prototype, NM.Event?.filter(k => !given.has(k)));
const listOf = (a, ...ms) => Object.setPrototypeOf(a, Object.assign(Object.create(Object.prototype), { item(i) { return this[i] ?? null; }, [Symbol.iterator]: Array.prototype[Symbol.iterator] }, ...ms.map(m => ({ [m]: Array.prototype[m] }))));
for (const [k, ms] of [["querySelectorAll", ["forEach", "entries", "keys", "values"]], ["getElementsByClassName", []], ["getElementsByTagName", []]]) {
  const f = N.prototype[k];
  N.prototype[k] = function (s) { return listOf([...f.call(this, s)], ...ms); };
}
for (const [k, ms] of [["childNodes", ["forEach", "entries", "keys", "values"]], ["children", []]]) {
  const f = Object.getOwnPropertyDescriptor(N.prototype, k).get;
  Object.defineProperty(N.prototype, k, { configurable: true, get() { return listOf([...f.call(this)], ...ms); } });
}
const byIdx = [];
const build = t => {
  if (typeof t == "string") return new Txt(t);
  const e = new El(t.tag);
  byIdx[t.i] = e;
  for (const [k, v] of t.attrs) e.setAttribute(k, v);
  for (const k of t.kids) { const c = build(k); c.parent = e; e.kids.push(c); }
  return e;
};
const pending = [];
const document = new Doc(), win = new Target();
const root = build(job.tree);
document.kids.push(root); root.parent = document;
const [head, body] = root.kids;
document.activeElement = body;
const geo = new Map(Object.entries(job.geometry).map(([i, g]) => [byIdx[i], g]));
const rules = job.display.map(([sel, v, imp]) => [parse(sel), v, imp]);
function display(e) {
  const inl = e.sd.get("display");
  for (const [l, v, imp] of rules) { if (inl !== undefined && !imp) return inl; if (any(e, l, e)) return v; }
  if (inl !== undefined) return inl;
  if (e.hidden || ["script", "style", "head", "template", "title", "meta", "link"].includes(e.tag)) return "none";
  return INLINE.has(e.tag) ? "inline" : e.tag == "li" ? "list-item" : "block";
}
function displayed(e) { for (; e instanceof El; e = e.parent) if (display(e) == "none") return false; return true; }
function fire(e, type, props = {}, bubbles = true) { const ev = new Ev(type, { ...props, bubbles }); dispatch(e, ev); return ev; }
const u = job.url;
const location_ = { href: u, get hash() { return u.includes("#") ? "#" + u.split("#").slice(1).join("#") : ""; }, pathname: u.split(/[?#]/)[0].replace(/^\w+:\/\/[^\/]*/, "") || "/", search: /\?[^#]*/.exec(u)?.[0] ?? "", origin: /^\w+:\/\/[^\/]*/.exec(u)?.[0] ?? "null", toString() { return u; } };
let ids = 0;
class Observer { constructor(f) { this.f = f; this.els = []; observers.push(this); } observe(e) { this.els.push(e); } disconnect() { this.els = []; } unobserve(e) { this.els = this.els.filter(x => x !== e); } }
const give = {
  window: globalThis, self: globalThis, document, location: location_, innerHeight: job.viewport, innerWidth: 1000, scrollY: 0, pageYOffset: 0,
  navigator: { clipboard: { writeText: async t => { if (!job.clipboard) throw new Error("no clipboard"); copied.push(String(t)); } }, userAgent: "native", platform: "" },
  getComputedStyle: e => { if (!(e instanceof El)) throw new TypeError("parameter 1 is not of type 'Element'."); return { get display() { return display(e); }, visibility: "visible", getPropertyValue: k => k == "display" ? display(e) : "visible" }; },
  scrollBy: (...a) => scrolls.push(["by", typeof a[0] == "object" ? a[0].top : a[1] ?? 0]),
  scrollTo: (...a) => scrolls.push(["to", typeof a[0] == "object" ? a[0].top : a[1] ?? 0]),
  matchMedia: q => ({ matches: false, media: q, addEventListener() {} }),
  getSelection: () => ({ toString: () => "" }),
  addEventListener: win.addEventListener.bind(win), removeEventListener: win.removeEventListener.bind(win), dispatchEvent: win.dispatchEvent.bind(win),
  setTimeout: (f, ms = 0, ...a) => { timers.push([++ids, () => f(...a), ms]); return ids; },
  clearTimeout: i => { const k = timers.findIndex(t => t[0] === i); if (k >= 0) timers.splice(k, 1); },
  requestAnimationFrame: f => { pending.push(() => f(0)); return 1; },
  Element: El, HTMLElement: El, Node: N, Document: Doc, EventTarget: Target,
  Event: Ev, MouseEvent: Ev, KeyboardEvent: Ev, CustomEvent: Ev,
  ResizeObserver: Observer,
};
const tick = setImmediate, realTimeout = setTimeout;
for (const [k, v] of Object.entries(give)) Object.defineProperty(globalThis, k, { value: v, writable: true, configurable: true });
gaps(globalThis, NM.Window);
process.on("unhandledRejection", e => errors.push(String(e)));
async function settle() {
  for (let i = 0; i < 30; i++) {
    await new Promise(r => tick(r));
    while (pending.length) { try { pending.shift()(); } catch (e) { errors.push(String(e)); } await new Promise(r => tick(r)); i = 0; }
  }
}
const CODES = { Enter: 13, Escape: 27, ArrowUp: 38, ArrowDown: 40, ArrowLeft: 37, ArrowRight: 39, " ": 32, Tab: 9 };
for (const [kind, ...a] of job.actions) {
  switch (kind) {
    case "export": {
      const m = await import(pathToFileURL(path.join(job.staticDir, a[0].replace(/^\/static\//, ""))).href);
      const args = a[2].map(x => x === "document" ? document : x);
      const p = (async () => m[a[1]](...args))().then(() => done = true, e => { errors.push(String(e)); done = true; });
      let done = false;
      for (let i = 0; i < 200 && !done; i++) await settle();
      break;
    }
    case "fire": fire(a[0] === "window" ? win : byIdx[a[0]], a[1], a[2] ?? {}, a[3] ?? true); break;
    case "key": {
      const k = a[0], p = { key: k, keyCode: CODES[k] ?? k[0].toUpperCase().charCodeAt(0), code: k, shiftKey: /^[A-Z]$/.test(k), ctrlKey: false, metaKey: false, altKey: false, repeat: false };
      fire(document.activeElement ?? body, "keydown", p); await settle();
      fire(document.activeElement ?? body, "keyup", p);
      break;
    }
    case "press": { const e = document.querySelector(a[0]); if (e) fire(e, "click", { button: 0 }); break; }
    case "focus": byIdx[a[0]].focus(); break;
    case "active": document.activeElement = byIdx[a[0]]; break;
    case "class": a[2] ? byIdx[a[0]].classes.add(a[1]) : byIdx[a[0]].classes.delete(a[1]); break;
    case "style": byIdx[a[0]].style[a[1]] = a[2]; break;
    case "timer": { timers.sort((x, y) => x[2] - y[2] || x[0] - y[0]); const x = timers.shift(); if (x) try { x[1](); } catch (e) { errors.push(String(e)); } break; }
    case "timers": { const t = timers.splice(0).sort((x, y) => x[2] - y[2]); for (const x of t) { try { x[1](); } catch (e) { errors.push(String(e)); } await settle(); } break; }
    case "resize": for (const o of observers) { const es = o.els.map(e => ({ target: e, contentRect: { height: (geo.get(e) ?? [0, 0])[1] } })); if (es.length) try { o.f(es, o); } catch (e) { errors.push(String(e)); } } break;
    case "clear": scrolls.length = copied.length = errors.length = 0; break;
  }
  await settle();
}
const idx = new Map(byIdx.map((e, i) => [e, i]));
const dump = n => n instanceof Txt ? n.data : { i: idx.get(n) ?? -1, tag: n.tag, attrs: [...n.attrs], classes: [...n.classes], style: [...n.sd], kids: n.kids.map(dump) };
out(JSON.stringify({ tree: dump(root), active: idx.get(document.activeElement) ?? -1, errors, scrolls, copied, timers: timers.length, unmodelled: [...unmodelled] }));
process.exit(0);
