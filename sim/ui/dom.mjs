// A small document: enough of the HTML parser, serializer and event dispatch for the user interface.
const VOID = new Set(['meta', 'link', 'br', 'img', 'input', 'hr']);
const RAW = new Set(['script', 'style']);
const ENT = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0' };
const decode = (s) => s.replace(/&(#x[0-9a-fA-F]+|#[0-9]+|[a-z]+);/g, (m, e) =>
  e[0] === '#' ? String.fromCodePoint(e[1] === 'x' ? parseInt(e.slice(2), 16) : parseInt(e.slice(1))) : ENT[e] ?? m);
const encText = (s) => s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
const encAttr = (s) => s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/"/g, '&quot;');
const EVENTS = ['click', 'mousedown', 'mouseup', 'mouseover', 'mouseenter', 'mouseleave'];

class Node {
  constructor(doc) { this.ownerDocument = doc; this.parentNode = null; this.childNodes = []; }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get firstChild() { return this.childNodes[0] ?? null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
  get nextSibling() { const c = this.parentNode?.childNodes; return c ? c[c.indexOf(this) + 1] ?? null : null; }
  get previousSibling() { const c = this.parentNode?.childNodes; return c ? c[c.indexOf(this) - 1] ?? null : null; }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === this.ownerDocument; }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  hasChildNodes() { return this.childNodes.length > 0; }
  insertBefore(n, ref) {
    if (n instanceof Fragment) { for (const c of [...n.childNodes]) this.insertBefore(c, ref); return n; }
    if (n.contains(this)) throw new Error('HierarchyRequestError');
    if (n === ref) return n;
    n.parentNode?.removeChild(n);
    const at = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
    if (at < 0) throw new Error('NotFoundError');
    this.childNodes.splice(at, 0, n); n.parentNode = this; return n;
  }
  appendChild(n) { return this.insertBefore(n, null); }
  removeChild(n) {
    const at = this.childNodes.indexOf(n);
    if (!(n instanceof Node)) throw new TypeError("parameter 1 is not of type 'Node'");
    if (at < 0) throw new Error('NotFoundError: the node to be removed is not a child of this node');
    this.childNodes.splice(at, 1); n.parentNode = null; return n;
  }
  replaceChild(n, old) { this.insertBefore(n, old); return this.removeChild(old); }
  remove() { this.parentNode?.removeChild(this); }
  get textContent() { return this.childNodes.map((c) => c.textContent).join(''); }
  set textContent(t) { for (const c of [...this.childNodes]) this.removeChild(c); if (`${t ?? ''}` !== '') this.appendChild(new Text(this.ownerDocument, `${t}`)); }
}
class Text extends Node {
  constructor(doc, data) { super(doc); this.data = data; }
  get nodeType() { return 3; }
  get textContent() { return this.data; }
  set textContent(t) { this.data = `${t}`; }
}
// a live collection, as in a browser
class HTMLCollection {
  constructor(of) {
    const list = () => of();
    return new Proxy(this, {
      get: (t, k) => {
        if (k === 'length') return list().length;
        if (k === Symbol.iterator) return function* () { for (let i = 0; i < list().length; i++) yield list()[i]; };
        if (k === 'item') return (i) => list()[i] ?? null;
        if (k === 'namedItem') return (n) => list().find((e) => e.id === n) ?? null;
        if (typeof k === 'string' && /^\d+$/.test(k)) return list()[+k];
        return t[k];
      },
      has: (t, k) => (typeof k === 'string' && /^\d+$/.test(k) ? +k < list().length : k in t),
      ownKeys: () => list().map((_, i) => `${i}`),
      getOwnPropertyDescriptor: (t, k) => (typeof k === 'string' && /^\d+$/.test(k) && +k < list().length ? { value: list()[+k], enumerable: true, configurable: true } : undefined),
    });
  }
}
class Style {
  setProperty(k, v) { this[k.replace(/-([a-z])/g, (_, c) => c.toUpperCase())] = v; }
  getPropertyValue(k) { return this[k.replace(/-([a-z])/g, (_, c) => c.toUpperCase())] ?? ''; }
  removeProperty(k) { delete this[k.replace(/-([a-z])/g, (_, c) => c.toUpperCase())]; }
}
class ParentNode extends Node {
  kids() { return this.childNodes.filter((c) => c instanceof Element); }
  get children() { return (this.collection ??= new HTMLCollection(() => this.kids())); }
  get childElementCount() { return this.kids().length; }
  get firstElementChild() { return this.kids()[0] ?? null; }
  get lastElementChild() { return this.kids().pop() ?? null; }
  append(...xs) { for (const x of xs) this.appendChild(x instanceof Node ? x : new Text(this.ownerDocument, `${x}`)); }
  prepend(...xs) { const f = this.firstChild; for (const x of xs) this.insertBefore(x instanceof Node ? x : new Text(this.ownerDocument, `${x}`), f); }
  replaceChildren(...xs) { for (const c of [...this.childNodes]) this.removeChild(c); this.append(...xs); }
  *walk() { for (const c of this.kids()) { yield c; yield* c.walk(); } }
  querySelectorAll(sel) { return [...this.walk()].filter((e) => e.matches(sel)); }
  querySelector(sel) { return this.querySelectorAll(sel)[0] ?? null; }
  getElementsByClassName(c) { return this.querySelectorAll(c.trim().split(/\s+/).map((x) => '.' + x).join('')); }
  getElementsByTagName(t) { return [...this.walk()].filter((e) => t === '*' || e.localName === t.toLowerCase()); }
}
class Fragment extends ParentNode { get nodeType() { return 11; } }
class Element extends ParentNode {
  constructor(doc, name) {
    super(doc); this.localName = name; this.attrs = new Map(); this.on = {}; this.listeners = [];
    this.style = new Style();
    for (const e of EVENTS) this['on' + e] = null;
  }
  get nodeType() { return 1; }
  get tagName() { return this.localName.toUpperCase(); }
  get nodeName() { return this.tagName; }
  getAttribute(n) { return this.attrs.get(n) ?? null; }
  setAttribute(n, v) { this.attrs.set(n, `${v}`); }
  hasAttribute(n) { return this.attrs.has(n); }
  removeAttribute(n) { this.attrs.delete(n); }
  get id() { return this.getAttribute('id') ?? ''; }
  set id(v) { this.setAttribute('id', v); }
  get className() { return this.getAttribute('class') ?? ''; }
  set className(v) { this.setAttribute('class', v); }
  get title() { return this.getAttribute('title') ?? ''; }
  set title(v) { this.setAttribute('title', v); }
  get dataset() {
    const key = (k) => 'data-' + k.replace(/[A-Z]/g, (c) => '-' + c.toLowerCase());
    return new Proxy({}, { get: (_, k) => this.attrs.get(key(k)), set: (_, k, v) => (this.setAttribute(key(k), v), true), has: (_, k) => this.attrs.has(key(k)), deleteProperty: (_, k) => (this.attrs.delete(key(k)), true) });
  }
  get classList() {
    const get = () => this.className.split(/\s+/).filter(Boolean), set = (a) => { this.className = a.join(' '); };
    return {
      contains: (c) => get().includes(c), add: (...c) => set([...new Set([...get(), ...c])]), remove: (...c) => set(get().filter((x) => !c.includes(x))),
      toggle: (c, f) => { const on = f ?? !get().includes(c); set(on ? [...new Set([...get(), c])] : get().filter((x) => x !== c)); return on; },
    };
  }
  matches(sel) {
    return sel.split(',').some((s) => {
      s = s.trim(); let e = this;
      const parts = s.split(/\s*(>)\s*|\s+/).filter(Boolean);
      const one = (el, p) => (p.match(/\*|[a-z][\w-]*|[.#][^.#\[:]+|\[[^\]]+\]/gi) ?? []).every((q) =>
        q === '*' || (q[0] === '.' ? el.classList.contains(q.slice(1)) : q[0] === '#' ? el.id === q.slice(1).replace(/\\/g, '') :
          q[0] === '[' ? (() => { const m = /^\[([^=\]]+)(?:=["']?(.*?)["']?)?\]$/.exec(q); return m[2] === undefined ? el.hasAttribute(m[1]) : el.getAttribute(m[1]) === m[2]; })() : el.localName === q.toLowerCase()));
      let k = parts.length - 1;
      if (!one(e, parts[k])) return false;
      for (k--; k >= 0; k--) {
        if (parts[k] === '>') { k--; e = e.parentElement; if (!e || !one(e, parts[k])) return false; continue; }
        do { e = e.parentElement; } while (e && !one(e, parts[k]));
        if (!e) return false;
      }
      return true;
    });
  }
  closest(sel) { for (let e = this; e; e = e.parentElement) if (e.matches(sel)) return e; return null; }
  get innerText() { return this.textContent; }
  set innerText(t) { this.textContent = t; }
  get innerHTML() { return this.childNodes.map(serialize).join(''); }
  set innerHTML(h) { for (const c of [...this.childNodes]) this.removeChild(c); for (const c of parse(this.ownerDocument, `${h}`)) this.appendChild(c); }
  get outerHTML() { return serialize(this); }
  set outerHTML(h) { const p = this.parentNode; for (const c of parse(this.ownerDocument, `${h}`)) p.insertBefore(c, this); p.removeChild(this); }
  insertAdjacentHTML(pos, h) {
    const ns = parse(this.ownerDocument, `${h}`), f = this.firstChild, nx = this.nextSibling;
    for (const n of ns) ({ beforebegin: () => this.parentNode.insertBefore(n, this), afterbegin: () => this.insertBefore(n, f), beforeend: () => this.appendChild(n), afterend: () => this.parentNode.insertBefore(n, nx) })[pos.toLowerCase()]();
  }
  insertAdjacentElement(pos, n) {
    ({ beforebegin: () => this.parentNode.insertBefore(n, this), afterbegin: () => this.insertBefore(n, this.firstChild), beforeend: () => this.appendChild(n), afterend: () => this.parentNode.insertBefore(n, this.nextSibling) })[pos.toLowerCase()]();
    return n;
  }
  cloneNode(deep) {
    const e = new Element(this.ownerDocument, this.localName);
    for (const [k, v] of this.attrs) e.attrs.set(k, v);
    Object.assign(e.style, this.style);
    if (deep) for (const c of this.childNodes) e.appendChild(c instanceof Text ? new Text(this.ownerDocument, c.data) : c.cloneNode(true));
    return e;
  }
  addEventListener(type, fn, o) { const once = typeof o === 'object' && o?.once, cap = o === true || !!o?.capture; if (fn && !this.listeners.some((l) => l.type === type && l.fn === fn && l.cap === cap)) this.listeners.push({ type, fn, once, cap }); }
  removeEventListener(type, fn, o) { const cap = o === true || !!o?.capture; this.listeners = this.listeners.filter((l) => !(l.type === type && l.fn === fn && l.cap === cap)); }
  dispatchEvent(ev) { return dispatch(this, ev); }
  click() { dispatch(this, new Event_('click')); }
  focus() {} blur() {} scrollIntoView() {}
}
export class Event_ {
  constructor(type, init = {}) { this.type = type; this.bubbles = init.bubbles ?? !/enter|leave/.test(type); this.target = this.currentTarget = null; this.defaultPrevented = false; this.stopped = this.immediate = false; this.button = init.button ?? 0; this.buttons = 1; this.detail = init.detail ?? 1; this.timeStamp = 0; this.isTrusted = true; }
  stopPropagation() { this.stopped = true; }
  stopImmediatePropagation() { this.stopped = this.immediate = true; }
  preventDefault() { this.defaultPrevented = true; }
  get path() { return this.route; }
  composedPath() { return this.route; }
}
/// the path is fixed before the first handler runs, as in a browser; errors are collected
export function dispatch(target, ev) {
  ev.target = target; ev.route = [];
  for (let n = target; n; n = n.parentNode) ev.route.push(n);
  const doc = target.ownerDocument;
  const call = (n, phase) => {
    ev.currentTarget = n;
    const run = (f) => { try { if (typeof f === 'function') { if (f.call(n, ev) === false) ev.defaultPrevented = true; } else f.handleEvent(ev); } catch (e) { doc.errors.push(e); } };
    for (const l of [...(n.listeners ?? [])]) {
      if (l.type !== ev.type || ev.immediate || (phase !== 2 && l.cap !== (phase === 1))) continue;
      if (l.once) n.listeners = n.listeners.filter((x) => x !== l);
      run(l.fn);
    }
    if (phase !== 1 && !ev.immediate && typeof n['on' + ev.type] === 'function') run(n['on' + ev.type]);
  };
  for (const n of ev.route.slice(1).reverse()) if (!ev.stopped) call(n, 1);
  if (!ev.stopped) call(target, 2);
  if (ev.bubbles) for (const n of ev.route.slice(1)) if (!ev.stopped) call(n, 3);
  return !ev.defaultPrevented;
}
function serialize(n) {
  if (n instanceof Text) return RAW.has(n.parentNode?.localName) ? n.data : encText(n.data);
  if (!(n instanceof Element)) return '';
  const style = Object.entries(n.style).filter(([, v]) => v !== '' && v != null).map(([k, v]) => `${k.replace(/[A-Z]/g, (c) => '-' + c.toLowerCase())}: ${v};`).join(' ');
  const attrs = [...n.attrs].filter(([k]) => k !== 'style').map(([k, v]) => ` ${k}="${encAttr(v)}"`).join('') + (style ? ` style="${encAttr(style)}"` : '');
  return `<${n.localName}${attrs}>` + (VOID.has(n.localName) ? '' : n.childNodes.map(serialize).join('') + `</${n.localName}>`);
}
function parse(doc, h) {
  const root = { children: [] }, out = [], stack = [];
  const put = (n) => { if (stack.length) { n.parentNode = stack[stack.length - 1]; n.parentNode.childNodes.push(n); } else out.push(n); };
  const text = (s) => {
    if (s === '') return;
    const list = stack.length ? stack[stack.length - 1].childNodes : out, last = list[list.length - 1];
    if (last instanceof Text) last.data += s; else put(new Text(doc, s));
  };
  let i = 0;
  while (i < h.length) {
    if (stack.length && RAW.has(stack[stack.length - 1].localName)) {
      const end = h.toLowerCase().indexOf('</' + stack[stack.length - 1].localName, i), e = end < 0 ? h.length : end;
      text(h.slice(i, e)); i = e;
      if (end < 0) break;
    }
    if (h.startsWith('<!--', i)) { const e = h.indexOf('-->', i + 4); i = e < 0 ? h.length : e + 3; continue; }
    if (h.startsWith('<!', i) || h.startsWith('<?', i)) { const e = h.indexOf('>', i); i = e < 0 ? h.length : e + 1; continue; }
    const close = /^<\/([a-zA-Z][^\s\/>]*)[^>]*>/.exec(h.slice(i, i + 400));
    if (close) {
      const name = close[1].toLowerCase(); let k = stack.length - 1;
      while (k >= 0 && stack[k].localName !== name) k--;
      if (k >= 0) stack.length = k;
      i += close[0].length; continue;
    }
    if (/^<[a-zA-Z]/.test(h.slice(i, i + 2))) {
      const m = /^<([a-zA-Z][^\s\/>]*)/.exec(h.slice(i));
      const el = new Element(doc, m[1].toLowerCase());
      i += m[0].length;
      for (;;) {
        while (i < h.length && /[\s\/]/.test(h[i])) i++;
        if (i >= h.length || h[i] === '>') break;
        const a = /^[^\s=>\/]+|^=/.exec(h.slice(i))[0].toLowerCase(); i += a.length;
        while (i < h.length && /\s/.test(h[i])) i++;
        let v = '';
        if (h[i] === '=') {
          i++;
          while (i < h.length && /\s/.test(h[i])) i++;
          if (h[i] === '"' || h[i] === "'") { const q = h[i++]; let e = h.indexOf(q, i); if (e < 0) e = h.length; v = h.slice(i, e); i = e + 1; }
          else { const mm = /^[^\s>]*/.exec(h.slice(i))[0]; v = mm; i += mm.length; }
        }
        if (!el.attrs.has(a)) el.attrs.set(a, decode(v));
      }
      if (i >= h.length) break; // an unfinished tag is dropped
      i++;
      if (el.attrs.has('style')) {
        for (const d of el.attrs.get('style').split(';')) { const k = d.indexOf(':'); if (k > 0) el.style[d.slice(0, k).trim().replace(/-([a-z])/g, (_, c) => c.toUpperCase())] = d.slice(k + 1).trim(); }
        el.attrs.delete('style');
      }
      put(el);
      if (!VOID.has(el.localName)) stack.push(el);
      continue;
    }
    let e = h.indexOf('<', i + 1); if (e < 0) e = h.length;
    text(decode(h.slice(i, e))); i = e;
  }
  for (const n of out) n.parentNode = null;
  void root;
  return out;
}
export class Document_ extends ParentNode {
  constructor(html) {
    super(null); this.ownerDocument = this; this.errors = []; this.listeners = [];
    for (const n of parse(this, html)) this.appendChild(n);
  }
  get nodeType() { return 9; }
  get documentElement() { return this.firstElementChild; }
  get body() { return this.querySelector('body'); }
  get head() { return this.querySelector('head'); }
  get readyState() { return 'complete'; }
  getElementById(id) { id = `${id}`; if (id === '') return null; 
    const find = (n) => { for (const c of n.childNodes) if (c instanceof Element) { if (c.attrs.get('id') === id) return c; const f = find(c); if (f) return f; } return null; };
    return find(this); }
  createElement(n) { return new Element(this, `${n}`.toLowerCase()); }
  createTextNode(t) { return new Text(this, `${t}`); }
  createDocumentFragment() { return new Fragment(this); }
  addEventListener(...a) { Element.prototype.addEventListener.apply(this, a); }
  removeEventListener(...a) { Element.prototype.removeEventListener.apply(this, a); }
}
Fragment.prototype.ownerDocument = null;
export { Element, Text, Node };
