module.exports = { format: async (s) => s };
