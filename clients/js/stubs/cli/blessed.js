// Stand-in for blessed: widgets that record what they are given; the simulator presses keys and clicks boxes.
class Widget {
  constructor(kind, o) { this.kind = kind; this.options = o || {}; this.handlers = {}; this.children = []; this.checked = !!this.options.checked; this.detached = false; if (this.options.parent) this.options.parent.append(this); globalThis.__sim.widget(this); }
  append(w) { if (w.parent && w.parent !== this) w.parent.remove(w); w.parent = this; if (!this.children.includes(w)) this.children.push(w); w.detached = false; }
  remove(w) { const i = this.children.indexOf(w); if (i >= 0) this.children.splice(i, 1); w.parent = null; w.detached = true; }
  detach() { if (this.parent) this.parent.remove(this); }
  destroy() { this.detach(); this.destroyed = true; }
  on(ev, f) { (this.handlers[ev] ??= []).push(f); return this; }
  emit(ev, ...a) { for (const f of (this.handlers[ev] ?? []).slice()) f.apply(this, a); }
  // checkbox
  check() { if (this.checked) return; this.checked = this.value = true; this.emit("check"); }
  uncheck() { if (!this.checked) return; this.checked = this.value = false; this.emit("uncheck"); }
  toggle() { return this.checked ? this.uncheck() : this.check(); }
  // listtable
  setData(rows) {
    if (!Array.isArray(rows) || !rows.every((r) => Array.isArray(r) && r.every((c) => typeof c === "string"))) throw new TypeError("rows of text expected");
    this.rows = rows;
  }
  setRows(rows) { this.setData(rows); }
  setContent(t) { this.content = t; }
  setText(t) { this.content = t; }
  // screen
  key(keys, f) { for (const k of [].concat(keys)) globalThis.__sim.key(k, f); }
  log() {}
  render() { globalThis.__sim.render(); }
}
const make = (kind) => (o) => new Widget(kind, o);
module.exports = { screen: make("screen"), box: make("box"), form: make("form"), listtable: make("listtable"), table: make("listtable"), checkbox: make("checkbox"), text: make("text") };
