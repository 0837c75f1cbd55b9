// Stands in for the runtime of AWS Synthetics: runs steps, asks the watched service (the driver), and notes which steps failed.
import { Readable } from "node:stream";
export const S = { answer: undefined as any, asked: [] as any[], steps: [] as { name: string; ok: boolean }[], timing: "now" as string, failedMetric: false };
const cfg: any = new Proxy({}, { get: (_t, k) => (v: unknown) => { if (k === "withFailedCanaryMetric") S.failedMetric = v === true; return cfg; } });
const VALID = /^[a-zA-Z0-9\-_. ]{1,255}$/;
async function executeHttpStep(name: string, options: any, callback?: (r: any) => Promise<void>): Promise<void> {
  S.asked.push({ ...options, headers: { ...options.headers } });
  const a = S.answer;
  const r: any = new Readable({ read() {} });
  r.statusCode = a.status; r.statusMessage = "said the service"; r.headers = a.headers;
  await null;
  // as in node:http, what nobody listens to when it arrives is gone
  let p: Promise<unknown>;
  try { p = Promise.resolve(callback ? callback(r) : a.status >= 200 && a.status <= 299 ? undefined : Promise.reject(new Error("bad status"))); } catch (e) { p = Promise.reject(e); }
  p.catch(() => {});
  if (r.listenerCount("data") === 0) r.resume();
  (async () => { await null; for (const c of a.chunks) { r.push(c); await new Promise((z) => setImmediate(z)); } r.push(null); })();
  try { await p; S.steps.push({ name: VALID.test(name) ? name : "invalid name", ok: true }); } catch (e) { S.steps.push({ name: VALID.test(name) ? name : "invalid name", ok: false }); throw e; }
}
async function executeStep(name: string, f: () => unknown, c?: { continueOnStepFailure?: boolean }): Promise<void> {
  // a step starts only when the runtime has noted its beginning
  if (S.timing === "later") for (let i = 0; i < 3; i++) await new Promise((z) => setImmediate(z));
  try { await f(); S.steps.push({ name, ok: true }); } catch (e) { S.steps.push({ name, ok: false }); if (!c?.continueOnStepFailure) throw e; }
}
export default { getConfiguration: () => cfg, executeHttpStep, executeStep };
