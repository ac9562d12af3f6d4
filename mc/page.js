/* The browser of check C23: runs the scripts of the served page with stand-ins for the parts of a browser that they use
   (elements, timers, sliders, the web socket and the drawing library), one command per line, one answer per line. */
const readline = require("readline"), vm = require("vm");
let page = null;

function newPage(scripts, ids) {
  const p = {sent: [], charts: [], timers: new Map(), next: 1, sliders: {}, inputs: {}, error: null, ws: null, ids: new Set(ids)};
  const byId = {};
  function element(tag) {
    const e = {tagName: String(tag).toUpperCase(), style: {}, children: [], listeners: {}, _text: "",
      setAttribute(k, v) { this[k] = v; if (k === "id") byId[v] = this; },
      getAttribute(k) { return this[k] === undefined ? null : this[k]; },
      appendChild(c) { this.children.push(c); c.parentNode = this; if (c.id) byId[c.id] = c; return c; },
      append(...cs) { cs.flat().forEach((c) => this.appendChild(c)); },
      insertAdjacentHTML(where, html) { this.innerHTML += html; },
      insertAdjacentElement(where, c) { return this.appendChild(c); },
      removeChild(c) { this.children = this.children.filter((x) => x !== c); return c; },
      remove() {}, querySelector() { return null; }, querySelectorAll() { return []; },
      addEventListener(k, f) { (this.listeners[k] = this.listeners[k] || []).push(f); }, removeEventListener() {},
      getContext() { return {canvas: this}; }, getBoundingClientRect() { return {width: 500, height: 200, top: 0, left: 0}; }};
    const first = {innerText: ""};
    Object.defineProperty(e, "firstElementChild", {get() { return this.children[0] || first; }});
    let html = "";
    Object.defineProperty(e, "innerHTML", {get() { return html; }, set(v) {  // markup: only the elements that have an id
      html = String(v);
      for (const m of html.matchAll(/<([a-z]+)[^>]*?\bid=['"]([^'"]+)['"]/g)) {
        const c = element(m[1]);
        c.id = m[2];
        byId[m[2]] = c;
        e.children.push(c);
      }
    }});
    return e;
  }
  const body = element("body");
  for (const i of ids) { const e = element("div"); e.id = i; byId[i] = e; body.children.push(e); }
  const document = {createElement: element, getElementById: (i) => byId[i] || null, body, head: element("head"), documentElement: element("html"),
    querySelector: (s) => s[0] === "#" ? byId[s.slice(1)] || null : null, querySelectorAll: () => [], addEventListener() {},
    createTextNode: (t) => ({text: t}), readyState: "complete"};
  class Chart {
    constructor(item, config) {
      const canvas = item && (item.canvas || item);
      if (!canvas || !byIdHas(canvas)) throw new Error("a chart without a canvas on the page");
      this.config = config; this.type = config.type;
      this.data = config.data || {}; this.data.labels = this.data.labels || []; this.data.datasets = this.data.datasets || [];
      this.options = config.options || {};
      p.charts.push(this);
      this.update();
    }
    update() {
      this.shown = JSON.parse(JSON.stringify({type: this.type, labels: this.data.labels,
        datasets: this.data.datasets.map((d, i) => [i, d.data || []]).filter((d) => d[1].length)}));
    }
    reset() {} stop() {} destroy() { p.charts = p.charts.filter((c) => c !== this); } render() {} clear() {} resize() {}
  }
  function byIdHas(c) { for (let x = c; x; x = x.parentNode) if (x === byId.elements || x === body) return true; return false; }
  class Slider {
    constructor(sel, o) { this.o = o || {}; this.value = this.o.value; this.f = {}; const i = String(sel).replace(/^#/, ""); if (byId[i]) p.sliders[i] = this; }
    on(k, f) { (this.f[k] = this.f[k] || []).push(f); return this; }
    getValue() { return this.value; } setValue(v) { this.value = v; return this; }
  }
  class WebSocket {
    constructor(url) { this.url = url; p.ws = this; this.readyState = 1; }
    send(m) { p.sent.push(JSON.parse(m)); }
    close() {} addEventListener(k, f) { this["on" + k] = f; }
  }
  WebSocket.OPEN = 1;
  const sandbox = {document, Chart, Slider, WebSocket, location: {host: "127.0.0.1:8521", protocol: "http:"}, console: {log() {}, warn() {}, error() {}, debug() {}, info() {}},
    setTimeout: (f, ms) => { p.timers.set(p.next, f); return p.next++; }, clearTimeout: (i) => { p.timers.delete(i); },
    setInterval: () => 0, clearInterval: () => undefined, requestAnimationFrame: (f) => { f(); return 0; }, addEventListener() {}, devicePixelRatio: 1};
  sandbox.window = sandbox; sandbox.self = sandbox;
  p.byId = byId;
  if (scripts.some((s) => s[0] && /jquery/i.test(s[0]))) {  // a page that loads jQuery may use its simplest parts
    sandbox.$ = sandbox.jQuery = (x) => {
      let e = x;
      if (typeof x === "string") e = x[0] === "<" ? element((/<\s*([a-z]+)/i.exec(x) || [0, "div"])[1]) : x[0] === "#" ? byId[x.slice(1)] : null;
      const w = e ? [e] : [];
      w.append = (c) => { if (e) e.append(Array.isArray(c) ? c[0] : c); return w; };
      return w;
    };
  }
  vm.createContext(sandbox);
  p.sandbox = sandbox;
  page = p;
  for (const [name, text] of scripts) {
    if (text === null || name && /static\/(external|js\/(chart|jquery|bootstrap|d3|sigma))/i.test(name)) continue;  // libraries: see the stand-ins
    try { vm.runInContext(text, sandbox, {filename: name || "inline"}); } catch (e) { p.error = p.error || (name || "inline script") + ": " + String(e); }
  }
  return p;
}

function act(c) {
  if (c.cmd === "load") { newPage(c.scripts, c.ids); return; }
  const p = page;
  if (c.cmd === "message") p.ws.onmessage({data: c.data});
  else if (c.cmd === "click") {
    const e = p.byId[c.id];
    if (e.onclick) e.onclick({});
    (e.listeners.click || []).forEach((f) => f({currentTarget: e}));
  } else if (c.cmd === "timer") {
    const first = p.timers.keys().next();
    if (!first.done) { const f = p.timers.get(first.value); p.timers.delete(first.value); f(); }
  } else if (c.cmd === "set") {
    const id = c.param + "_id";
    if (p.sliders[id]) { p.sliders[id].value = c.value; (p.sliders[id].f.change || []).forEach((f) => f({oldValue: null, newValue: c.value})); }
    else if (p.byId[id]) {
      const e = p.byId[id];
      e.value = String(c.value); e.checked = c.value;
      if (e.onchange) e.onchange({currentTarget: e});
      (e.listeners.change || []).forEach((f) => f({currentTarget: e}));
    } else throw new Error("the page offers no input for " + c.param);
  }
}

readline.createInterface({input: process.stdin}).on("line", (line) => {
  try { act(JSON.parse(line)); } catch (e) { if (page) page.error = page.error || String(e && e.stack || e).slice(0, 400); }
  const sent = page ? page.sent.splice(0) : [];
  process.stdout.write(JSON.stringify({sent, error: page && page.error, timers: page ? page.timers.size : 0, socket: !!(page && page.ws),
    charts: page ? page.charts.map((c) => c.shown) : [], inputs: page ? Object.keys(page.sliders) : [],
    tick: page && page.byId.currentStep ? page.byId.currentStep.innerText : null}) + "\n");
});
