// The file system of the simulator.
export const readFileSync = (...a) => globalThis.__sim.fs.readFileSync(...a);
export const writeFileSync = (...a) => globalThis.__sim.fs.writeFileSync(...a);
export const existsSync = (...a) => globalThis.__sim.fs.existsSync(...a);
export const renameSync = (...a) => globalThis.__sim.fs.renameSync(...a);
export const unlinkSync = (...a) => globalThis.__sim.fs.unlinkSync(...a);
export const rmSync = unlinkSync;
export default { readFileSync, writeFileSync, existsSync, renameSync, unlinkSync, rmSync };
