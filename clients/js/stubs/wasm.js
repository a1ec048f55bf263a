// Stand-in for the emscripten module loader: the same engine as a native library, loaded when the simulator says so.
export default function bindings() { return globalThis.__sim.load(); }
