export default function reqwest(o) { return window.__request(o); }
