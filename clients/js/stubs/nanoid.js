// Stand-in for nanoid: unique ids decided by the simulator.
export const nanoid = (n) => globalThis.__sim.id(n);
export const customAlphabet = () => nanoid;
