// Stand-in for commander: subcommands, arguments, options with defaults, one action.
const camel = (s) => s.replace(/^--/, "").replace(/-(.)/g, (_, c) => c.toUpperCase());
export class Command {
  constructor(n) { this._name = n; this.subs = []; this.args_ = []; this.opts = []; }
  name(n) { this._name = n; return this; }
  description() { return this; }
  version() { return this; }
  command(n) { const c = new Command(n); this.subs.push(c); return c; }
  argument(a) { this.args_.push(a); return this; }
  option(flags, _desc, def) {
    const long = flags.split(/[ ,]+/).find((f) => f.startsWith("--")), short = flags.split(/[ ,]+/).find((f) => /^-[^-]/.test(f));
    this.opts.push({ long, short, value: /<.*>/.test(flags), def });
    return this;
  }
  action(f) { this.fn = f; return this; }
  parse() {
    const argv = globalThis.__sim.argv.slice();
    const sub = this.subs.find((c) => c._name === argv[0]);
    if (!sub) throw new Error("unknown command " + argv[0]);
    const pos = [], opts = {};
    for (const o of sub.opts) if (o.def !== undefined) opts[camel(o.long)] = o.def;
    for (let i = 1; i < argv.length; i++) {
      const o = sub.opts.find((x) => x.long === argv[i] || x.short === argv[i]);
      if (o) opts[camel(o.long)] = o.value ? argv[++i] : true;
      else pos.push(argv[i]);
    }
    if (pos.length !== sub.args_.length) throw new Error("wrong number of arguments");
    globalThis.__sim.action(sub.fn(...pos, opts, sub));
    return this;
  }
}
