// Stand-in for zustand/vanilla, with its semantics: shallow merge, listeners told of every replacement of the state.
export function createStore(init) {
  let state;
  const listeners = new Set();
  const set = (p, replace) => {
    const next = typeof p === "function" ? p(state) : p;
    if (Object.is(next, state)) return;
    const prev = state;
    state = replace || typeof next !== "object" || next === null ? next : Object.assign({}, state, next);
    listeners.forEach((l) => l(state, prev));
  };
  const api = { setState: set, getState: () => state, subscribe: (l) => { listeners.add(l); return () => listeners.delete(l); }, getInitialState: () => initial };
  const initial = (state = init(set, api.getState, api));
  return api;
}
