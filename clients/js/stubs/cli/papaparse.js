// Stand-in for papaparse: comma separated text into rows of cells; the result arrives when the simulator says so.
function parse(text, opt) {
  const data = [];
  let row = [], cell = "", quoted = false, used = false;
  const endRow = () => { row.push(cell); data.push(row); row = []; cell = ""; };
  for (let i = 0; i < text.length; i++) {
    const c = text[i];
    used = true;
    if (quoted) { if (c === '"') { if (text[i + 1] === '"') { cell += c; i++; } else quoted = false; } else cell += c; }
    else if (c === '"' && cell === "") quoted = true;
    else if (c === ",") { row.push(cell); cell = ""; }
    else if (c === "\r" && text[i + 1] === "\n") { endRow(); i++; }
    else if (c === "\n") endRow();
    else cell += c;
  }
  if (used) endRow();
  const res = { data, errors: [], meta: {} };
  if (opt && opt.complete) { globalThis.__sim.parsed(() => opt.complete(res)); return undefined; }
  return res;
}
export default { parse };
export { parse };
