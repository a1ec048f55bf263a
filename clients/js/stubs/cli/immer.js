// Stand-in for immer's produce on plain data: the recipe changes a deep copy.
export function produce(base, recipe) {
  const draft = structuredClone(base);
  const r = recipe(draft);
  return r === undefined ? draft : r;
}
export default produce;
