// Stand-in for json-schema-to-zod's parseSchema: the keywords the operators' schemas use.
const q = JSON.stringify;
function one(s) {
  let z;
  if (s.enum) z = s.enum.every((x) => typeof x === "string") ? `z.enum(${q(s.enum)})` : s.enum.length === 1 ? `z.literal(${q(s.enum[0])})` : `z.union([${s.enum.map((x) => `z.literal(${q(x)})`)}])`;
  else if (s.const !== undefined) z = `z.literal(${q(s.const)})`;
  else if (s.type === "string") z = "z.string()" + (s.minLength !== undefined ? `.min(${s.minLength})` : "");
  else if (s.type === "number" || s.type === "integer") {
    z = "z.number()" + (s.type === "integer" ? ".int()" : "");
    if (s.minimum !== undefined) z += `.gte(${s.minimum})`;
    if (s.maximum !== undefined) z += `.lte(${s.maximum})`;
    if (s.exclusiveMinimum !== undefined) z += `.gt(${s.exclusiveMinimum})`;
    if (s.exclusiveMaximum !== undefined) z += `.lt(${s.exclusiveMaximum})`;
  } else if (s.type === "boolean") z = "z.boolean()";
  else if (s.type === "array") {
    if (Array.isArray(s.items)) z = `z.tuple([${s.items.map(one).join(",")}])`;
    else {
      z = `z.array(${s.items ? one(s.items) : "z.any()"})`;
      if (s.minItems !== undefined) z += `.min(${s.minItems})`;
      if (s.maxItems !== undefined) z += `.max(${s.maxItems})`;
    }
  } else if (s.type === "object" && s.properties) {
    z = `z.object({ ${Object.entries(s.properties).map(([k, v]) => {
      let p = one(v);
      if (!(s.required ?? []).includes(k) && v.default === undefined) p += ".optional()";
      return `${q(k)}: ${p}`;
    }).join(", ")} })`;
    if (s.additionalProperties === false) z += ".strict()";
  } else if (s.oneOf || s.anyOf) z = `z.union([${(s.oneOf ?? s.anyOf).map(one).join(",")}])`;
  else z = "z.any()";
  if (s.description) z += `.describe(${q(s.description)})`;
  if (s.default !== undefined) z += `.default(${q(s.default)})`;
  return z;
}
export const parseSchema = one;
export const jsonSchemaToZod = one;
export default one;
