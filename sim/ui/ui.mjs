// Executes simulated runs of the user interface: one JSON plan per line in, one JSON outcome per line out.
// usage: node --experimental-vm-modules ui.mjs INDEX_HTML SRC_DIR TARGET_DIR
import fs from 'node:fs';
import path from 'node:path';
import vm from 'node:vm';
import readline from 'node:readline';
import { Document_, Event_, dispatch } from './dom.mjs';

const [html, ...dirs] = process.argv.slice(2);
const page = fs.readFileSync(html, 'utf8');
const sources = dirs.map((d) => Object.fromEntries(fs.readdirSync(d).filter((f) => f.endsWith('.js')).map((f) => [f, fs.readFileSync(path.join(d, f), 'utf8')])));
const quiet = Object.fromEntries(['log', 'info', 'warn', 'error', 'debug', 'trace', 'group', 'groupEnd'].map((k) => [k, () => {}]));
const out = (o) => process.stdout.write(JSON.stringify(o) + '\n');

// simulated time: nothing the page puts off runs before the simulator says so
const timers = Object.assign([], { next: 0, now: 0 });
const settle = async (doc) => {
  for (let n = 0; ; n++) {
    await null; await null;
    if (!timers.length) return;
    if (n > 5000) throw new Bad('hang', 'the page keeps putting things off');
    timers.sort((a, b) => a.at - b.at || a.id - b.id);
    const t = timers.shift(); timers.now = Math.max(timers.now, t.at);
    try { t.f(); } catch (e) { doc.errors.push(e); }
  }
};

class Bad extends Error { constructor(cls, msg) { super(msg); this.cls = cls; } }
const must = (c, cls, msg) => { if (!c) throw new Bad(cls, msg()); };

async function boot(variant) {
  const doc = new Document_(page), files = sources[variant], mods = new Map();
  timers.length = 0;
  const later = (f, t = 0, ...a) => { timers.push({ id: ++timers.next, at: timers.now + Math.max(0, +t || 0), f: () => f(...a) }); return timers.next; };
  Object.assign(globalThis, { setTimeout: later, setImmediate: (f, ...a) => later(f, 0, ...a), requestAnimationFrame: (f) => later(() => f(timers.now), 16), requestIdleCallback: (f) => later(f, 1), clearTimeout: (id) => { const i = timers.findIndex((t) => t.id === id); if (i >= 0) timers.splice(i, 1); } });
  globalThis.clearImmediate = globalThis.cancelAnimationFrame = globalThis.clearTimeout;
  globalThis.document = doc; globalThis.window = globalThis; globalThis.console = quiet; globalThis.Event = Event_;
  const load = (spec, from) => {
    let f = path.basename(spec);
    if (!files[f]) f += '.js';
    if (!files[f]) throw new Error(`no module ${spec}${from ? ' imported by ' + from : ''}`);
    if (!mods.has(f)) mods.set(f, new vm.SourceTextModule(files[f], { identifier: f }));
    return mods.get(f);
  };
  const roots = doc.querySelectorAll('script').map((s) => s.getAttribute('src')).filter((s) => s && s.includes('ngineer_js/target/'));
  for (const r of roots) {
    const m = load(r);
    if (m.status === 'unlinked') await m.link((s, ref) => load(s, ref.identifier));
    if (m.status === 'linked') await m.evaluate();
  }
  const get = (f, n) => { const ns = mods.get(f)?.namespace; if (!ns || !(n in ns)) throw new Error(`${f} does not provide ${n}`); return ns[n]; };
  return { doc, get };
}

async function run(plan) {
  const ev = [], probes = {}, faults = {}, states = new Set(); let lastOp = '';
  const probe = (k) => { probes[k] = (probes[k] ?? 0) + 1; }, fault = (k) => { faults[k] = (faults[k] ?? 0) + 1; };
  let w;
  try { w = await boot(plan.variant); } catch (e) { return { cls: 'page', detail: `the page does not start: ${e.message}`, ev, probes, faults }; }
  const { doc, get } = w;
  const addItem = get('leftRibbonMenu.js', 'createLeftRibbonMenuFileItem');
  const TB = get('tagbuilder.js', 'TagBuilder'), gen = get('tagbuilder.js', 'generateUniqueElementId'), dropTag = get('tagbuilder.js', 'dropTagFromApplication'), register = get('tagbuilder.js', 'registerElementId');
  const PANE = get('common.js', 'PROJ_PANE');
  const $ = (id) => doc.getElementById(id);
  const text = (e) => e.textContent.trim().replace(/\s+/g, ' ');
  const intro = 'view a file to see modelling tools';
  // the model
  let shown = 'files';
  const items = [], tabs = [], notes = [], built = [], taken = new Set();
  const ribbon = () => $('left-ribbon'), bar = () => $('proj-tabs-bar');
  const hist = [];
  const call = (what, f) => {
    let v;
    try { v = f(); } catch (e) { if (e instanceof Bad) throw e; throw new Bad('exception', `${what} fails: ${e?.name}: ${e?.message}`); }
    return v;
  };
  const fire = (el, type, init) => { dispatch(el, new Event_(type, init)); };
  const errors = (what) => { const e = doc.errors.splice(0); must(e.length === 0, 'exception', () => `${what}: a handler fails: ${e[0]?.name}: ${e[0]?.message}`); };
  const tabEls = () => [...bar().children];
  // the innermost element showing an X
  const closeOf = (t) => [...t.walk()].filter((e) => text(e) === 'X').pop();
  const itemEls = () => [...ribbon().children];
  // where an element is, as the user sees it
  const where = (el) => {
    for (let i = 0; i < tabs.length; i++) {
      const t = tabEls()[i];
      if (t?.contains(el)) return closeOf(t)?.contains(el) && el !== t ? ['close', i] : ['tab', i];
    }
    if (shown === 'files') for (let i = 0; i < items.length; i++) if (itemEls()[i]?.contains(el)) return ['item', i];
    if ($('files-tab').contains(el)) return ['files'];
    if ($('model-tab').contains(el)) return ['model'];
    for (let i = 0; i < built.length; i++) if (!built[i].gone && $(built[i].id)?.contains(el)) return ['built', i];
    return ['nothing'];
  };
  const expect = (k) => {
    switch (k[0]) {
      case 'item': if (!tabs.includes(items[k[1]].name)) { tabs.push(items[k[1]].name); probe('opened'); } else probe('opened_again'); break;
      case 'close': tabs.splice(k[1], 1); probe('closed'); break;
      case 'files': if (shown !== 'files') probe('switched_to_files'); else probe('switched_to_same'); shown = 'files'; break;
      case 'model': if (shown !== 'model') probe('switched_to_model'); else probe('switched_to_same'); shown = 'model'; break;
    }
  };
  const click = (el) => {
    const k = where(el), at = k[0] === 'close' ? k[1] : -1;
    built.forEach((b) => { b.seen = b.hits; b.want = b.hits; });
    for (let b = built.length - 1; b >= 0; b--) if (!built[b].gone && $(built[b].id)?.contains(el)) built[b].want++;
    fire(el, 'mousedown');
    if (el.isConnected) { fire(el, 'mouseup'); if (el.isConnected) fire(el, 'click'); }
    else {
      // something else is under the pointer now: in the worst case, the close button of the next tab
      const next = at >= 0 ? tabEls()[at] : null;
      fire((next && closeOf(next)) ?? bar(), 'mouseup'); probe('shifted_under_pointer');
    }
    expect(k);
    return k;
  };
  const check = (what) => {
    errors(what);
    const here = () => `${hist.join('\n')}\n${what}`;
    // ids
    const seen = new Set();
    for (const e of doc.walk()) { if (e.id === '') continue; must(!seen.has(e.id), 'ids', () => `${here()}\ntwo elements share the id ${e.id}`); seen.add(e.id); }
    // left panel
    const r = ribbon();
    must(r, 'page', () => `${here()}\nthe left panel is gone`);
    if (shown === 'files') {
      const got = itemEls().map((e) => e.textContent), want = items.map((i) => i.name);
      must(JSON.stringify(got) === JSON.stringify(want), 'panel', () => `${here()}\nthe Files panel shows ${JSON.stringify(got)} and should show ${JSON.stringify(want)}`);
      must(text(r) === text({ textContent: want.join('') }), 'panel', () => `${here()}\nthe Files panel reads ${JSON.stringify(text(r))} and should read ${JSON.stringify(want.join(''))}`);
      itemEls().forEach((e, i) => { must(e.id === items[i].id, 'ids', () => `${here()}\nfile item ${items[i].name} had the id ${items[i].id}, now it has ${e.id}`); });
    } else {
      const want = [intro, ...notes].join(' '), got = r.childNodes.map((n) => n.textContent.trim()).filter((t) => t !== '').join(' ');
      must(got === want, 'panel', () => `${here()}\nthe Model panel reads ${JSON.stringify(got)} and should read ${JSON.stringify(want)}`);
    }
    // tabs
    const got = tabEls().map((t) => t.textContent), want = tabs.map((t) => t + 'X');
    must(JSON.stringify(got) === JSON.stringify(want), 'tabs', () => `${here()}\nthe tabs are ${JSON.stringify(got)} and should be ${JSON.stringify(want)}`);
    // other elements of the application
    for (const b of built) {
      const e = $(b.id);
      if (b.gone) continue;
      must(e, 'elements', () => `${here()}\nelement ${b.id} is gone`);
      must(e.firstChild?.textContent === b.text, 'elements', () => `${here()}\nelement ${b.id} says ${JSON.stringify(e.firstChild?.textContent)} instead of ${JSON.stringify(b.text)}`);
      must(e.children.length === built.filter((x) => !x.gone && built[x.parent] === b).length, 'elements', () => `${here()}\nelement ${b.id} contains something that does not belong there`);
      must((b.parent < 0 ? $('proj-pane') : $(built[b.parent].id)) === e.parentNode, 'elements', () => `${here()}\nelement ${b.id} is not where it was put`);
    }
  };
  const inUse = (id) => taken.has(id) || !!$(id) || items.some((i) => i.id === id);
  try {
    await settle(doc);
    check('at the start');
    for (const [si, s] of plan.steps.entries()) {
      const [name, a, b] = typeof s === 'string' ? [s] : [Object.keys(s)[0], ...[].concat(Object.values(s)[0])];
      const op = name.toLowerCase(); let what = '', k;
      const n = (list) => (list.length ? a % list.length : -1);
      switch (op) {
        case 'add':
          if (shown !== 'files') continue;
          what = `file ${a} is added to the Files panel`;
          { const ids = new Set([...doc.walk()].map((e) => e.id)); const t = call(what, () => addItem(a)); const e = itemEls()[items.length];
            must(e, 'panel', () => `${hist.join('\n')}\n${what}: there is no item for it`);
            must(!ids.has(e.id) && !taken.has(e.id), 'ids', () => `${hist.join('\n')}\n${what}: its item gets the id ${e.id}, which is in use`);
            must(e.id !== '' && t.getter() === e, 'panel', () => `${hist.join('\n')}\n${what}: the tag it returns is not the new item`);
            items.push({ name: a, id: e.id }); taken.add(e.id); probe('added'); }
          break;
        case 'files': what = 'a click on the Files tab'; click($('files-tab')); break;
        case 'model': what = 'a click on the Model tab'; click($('model-tab')); break;
        case 'item':
          if (shown !== 'files' || (k = n(items)) < 0) continue;
          if (!itemEls()[k]) continue;
          what = `a click on file item ${k} (${items[k].name})`; click(itemEls()[k]); if (items.filter((i) => i.name === items[k].name).length > 1) probe('file_listed_twice'); break;
        case 'close': if ((k = n(tabs)) < 0) continue; what = `a click on the close button of tab ${k} (${tabs[k]})`; { const c = closeOf(tabEls()[k]); must(c, 'tabs', () => `${hist.join('\n')}\ntab ${k} has no close button`); click(c); } break;
        case 'tab': if ((k = n(tabs)) < 0) continue; what = `a click on tab ${k} (${tabs[k]})`; click(tabEls()[k].firstElementChild ?? tabEls()[k]); break;
        case 'stray': { const all = [...doc.body.walk()]; const e = all[a % all.length]; what = `a click on ${e.localName}${e.id ? '#' + e.id : ''}`; fault('stray_click'); what += ` (${click(e).join(' ')})`; break; }
        case 'double': {
          const all = [...doc.body.walk()]; const e = all[a % all.length]; what = `a double click on ${e.localName}${e.id ? '#' + e.id : ''}`; fault('double_click');
          if (where(e)[0] === 'close') continue; // two clicks in a row are plain steps
          click(e); if (e.isConnected) click(e); break;
        }
        case 'drag': {
          // the button goes down here and up there: not a click on anything
          const all = [...doc.body.walk()]; const e = all[a % all.length], f = all[b % all.length];
          if (e === f || e.contains(f) || f.contains(e)) continue;
          const at = where(e); what = `the pointer is dragged from ${e.localName}#${e.id} to ${f.localName}#${f.id}`; fault('drag');
          if (where(f)[0] === 'close' || built.length) continue;
          fire(e, 'mousedown'); fire(f.isConnected ? f : doc.body, 'mouseup');
          // whether pressing a close button already closes is a matter of taste
          if (at[0] === 'close' && tabEls().length === tabs.length - 1) tabs.splice(at[1], 1);
          break;
        }
        case 'hover': { const all = [...doc.body.walk()]; const e = all[a % all.length]; what = `the pointer moves over ${e.localName}#${e.id}`; fault('hover'); fire(e, 'mouseover'); fire(e, 'mouseenter'); if (e.isConnected) fire(e, 'mouseleave'); break; }
        case 'note':
          if (shown !== 'model') continue;
          what = `the Model panel gets ${JSON.stringify(a)}`; { const e = doc.createElement('b'); e.textContent = a; ribbon().appendChild(e); notes.push(a); probe('noted'); } break;
        case 'gen':
          what = 'the application asks for an id';
          { const id = call(what, gen); must(typeof id === 'string' && id !== '', 'ids', () => `${what} and gets ${id}`); must(!inUse(id), 'ids', () => `${hist.join('\n')}\n${what} and gets ${id}, which is in use`); taken.add(id); ev.push(id); probe('id'); }
          break;
        case 'reserve': {
          const last = [...taken].map((t) => +(/^registered-html-tag-(\d+)$/.exec(t)?.[1] ?? -1)).reduce((x, y) => Math.max(x, y), -1);
          const id = a % 3 === 0 ? 'extra-' + (a % 5) : 'registered-html-tag-' + (last + (a % 7)), known = inUse(id);
          what = `the application registers the id ${id}`;
          let ok = true; try { register(id); } catch { ok = false; }
          must(ok !== known, 'ids', () => `${hist.join('\n')}\n${what}, which is ${known ? 'in use, and succeeds' : 'free, and fails'}`);
          if (ok) taken.add(id); probe(ok ? 'reserved' : 'reserve_refused'); break;
        }
        case 'build': {
          const free = built.map((x, i) => i).filter((i) => !built[i].gone); const pi = b % 3 === 0 || free.length === 0 ? -1 : free[b % free.length];
          const id = call('the application asks for an id', gen);
          must(!inUse(id), 'ids', () => `${hist.join('\n')}\nthe application asks for an id and gets ${id}, which is in use`);
          const x = { id, text: `element ${built.length}`, parent: pi, hits: 0, gone: false };
          what = `the application builds ${id} into ${pi < 0 ? 'the project pane' : built[pi].id}`;
          x.tag = call(what, () => new TB('div').setTagId(id).setTagClass('x').setTagContent(x.text).setTagCallback('onclick', () => { x.hits++; }).buildInto(pi < 0 ? PANE : built[pi].tag, true));
          built.push(x); taken.add(id); probe(pi < 0 ? 'built' : 'built_nested'); break;
        }
        case 'press': {
          const live = built.filter((x) => !x.gone); if (!live.length) continue; const x = live[a % live.length];
          what = `a click on ${x.id}`; click($(x.id));
          for (const y of built) must(y.hits === y.want, 'handlers', () => `${hist.join('\n')}\n${what}: the handler of ${y.id} ran ${y.hits - y.seen} times instead of ${y.want - y.seen}`);
          probe('pressed'); break;
        }
        case 'drop': {
          const ids = [...taken].filter((id) => $(id)); if (!ids.length) continue; const id = ids[a % ids.length];
          what = `the application drops the id ${id} of an element that is there`;
          call(what, () => dropTag(id)); // must not free it: the next id shows
          probe('drop_refused'); break;
        }
        case 'remove': {
          const leaf = built.map((x, i) => i).filter((i) => !built[i].gone && !built.some((y) => !y.gone && y.parent === i)); if (!leaf.length) continue;
          const x = built[leaf[a % leaf.length]]; what = `the application removes ${x.id}`;
          call(what, () => { const e = x.tag.getter(), p = x.parent < 0 ? PANE : built[x.parent].tag; p.children.splice(p.children.indexOf(x.tag.getter), 1); e.parentNode.removeChild(e); dropTag(x.id); });
          x.gone = true; taken.delete(x.id); probe('removed'); break;
        }
        default: continue;
      }
      await null; await null;
      // an impatient user does not wait for what the page has put off
      if (timers.length && (plan.order + si * 7) % 4 === 0 && /^(Files|Model|Item)$/.test(typeof plan.steps[si + 1] === 'string' ? plan.steps[si + 1] : Object.keys(plan.steps[si + 1] ?? {})[0])) { fault('hurry'); hist.push(what); continue; }
      await settle(doc);
      check(what);
      hist.push(what); ev.push(`${what} | ${shown} ${tabs.join(',')}`);
      states.add([lastOp, op, shown, Math.min(items.length, 4), Math.min(tabs.length, 3), notes.length > 0].join()); lastOp = op;
    }
    // whatever happened: everything can be opened and closed now
    hist.push('-- final round');
    await settle(doc);
    const end = async (what) => { await settle(doc); check(what); hist.push(what); ev.push(what); };
    click($('files-tab')); await end('a click on the Files tab');
    for (let i = 0; i < items.length; i++) { click(itemEls()[i]); await end(`a click on file item ${i} (${items[i].name})`); }
    for (let k = 0; tabs.length; k++) { const i = (plan.order + 7 * k) % tabs.length; const name = tabs[i]; click(closeOf(tabEls()[i])); await end(`a click on the close button of tab ${i} (${name})`); }
    click($('model-tab')); await end('a click on the Model tab');
    click($('files-tab')); await end('a click on the Files tab');
  } catch (e) {
    if (!(e instanceof Bad)) return { cls: 'exception', detail: `${hist.join('\n')}\n${e?.stack ?? e}`, ev, probes, faults };
    return { cls: e.cls, detail: e.message.startsWith(hist[0] ?? '\0') || !hist.length ? e.message : `${hist.join('\n')}\n${e.message}`, ev, probes, faults };
  }
  return { ev, probes, faults, sig: [...states].sort().join(';') };
}
for await (const line of readline.createInterface({ input: process.stdin })) {
  if (line.trim() === '') continue;
  out(await run(JSON.parse(line)));
}
