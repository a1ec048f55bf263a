import * as y from "js-yaml";
export const parse = (s) => (y.load ?? y.default.load)(s);
