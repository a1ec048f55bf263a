// Stand-in for class-transformer: Exclude, instanceToPlain, plainToInstance with the library's semantics for plain
// objects, arrays and class instances.
const excluded = new Map(); // prototype -> set of property names
export function Exclude() {
  return (target, key) => {
    if (!excluded.has(target)) excluded.set(target, new Set());
    excluded.get(target).add(key);
  };
}
function isExcluded(obj, key) {
  for (let p = Object.getPrototypeOf(obj); p; p = Object.getPrototypeOf(p)) if (excluded.get(p)?.has(key)) return true;
  return false;
}
function plain(v, seen) {
  if (Array.isArray(v)) return v.map((x) => plain(x, seen));
  if (v instanceof Date) return new Date(v.valueOf());
  if (v === null || typeof v !== "object") return v;
  if (seen.has(v)) return undefined; // circular
  seen.add(v);
  const out = {};
  for (const k of Object.keys(v)) {
    if (isExcluded(v, k) || typeof v[k] === "function") continue;
    out[k] = plain(v[k], seen);
  }
  seen.delete(v);
  return out;
}
export const instanceToPlain = (v) => plain(v, new Set());
export function plainToInstance(cls, v) {
  if (Array.isArray(v)) return v.map((x) => plainToInstance(cls, x));
  const out = new cls();
  for (const k of Object.keys(v)) {
    if (isExcluded(out, k) || typeof out[k] === "function") continue;
    out[k] = plain(v[k], new Set());
  }
  return out;
}
export const classToPlain = instanceToPlain, plainToClass = plainToInstance;
