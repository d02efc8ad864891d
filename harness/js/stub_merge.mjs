export function merge(...xs) { return Object.assign({}, ...xs); }
