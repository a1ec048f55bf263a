// Stand-in for json-schema-to-typescript's compile: an interface in the library's layout.
function type(s) {
  if (s.enum) return s.enum.map((x) => JSON.stringify(x)).join(" | ");
  if (s.type === "integer" || s.type === "number") return "number";
  if (s.type === "string" || s.type === "boolean") return s.type;
  if (s.type === "array") {
    const t = s.items ? type(s.items) : "unknown";
    const e = /[| ]/.test(t) && !/^\[/.test(t) ? `(${t})` : t;
    if (s.minItems && s.maxItems === s.minItems) return `[${Array(s.minItems).fill(t).join(", ")}]`;
    if (s.minItems) return `[${Array(s.minItems).fill(t).join(", ")}, ...${e}[]]`;
    return `${e}[]`;
  }
  return "unknown";
}
export async function compile(schema, name) {
  let o = `/* eslint-disable */\n/**\n * This file was automatically generated.\n */\n\nexport interface ${name} {\n`;
  for (const [k, v] of Object.entries(schema.properties)) {
    if (v.description) o += `  /**\n   * ${v.description}\n   */\n`;
    o += `  ${k}${(schema.required ?? []).includes(k) ? "" : "?"}: ${type(v)};\n`;
  }
  if (schema.additionalProperties !== false) o += `  [k: string]: unknown;\n`;
  return o + "}\n";
}
