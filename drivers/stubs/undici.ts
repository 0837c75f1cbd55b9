// an HTTP client that asks what the driver laid out
export const source: { answer: (url: URL, agent: any) => { status: number; body: string } | "lost"; asked: number } = { answer: () => "lost", asked: 0 };
export class Agent { constructor(readonly options: any = {}) {} }
export async function request(url: URL | string, options: any = {}): Promise<any> {
  source.asked++;
  const r = source.answer(new URL(String(url)), options.dispatcher);
  await Promise.resolve();
  if (r === "lost") throw new Error("other side closed");
  return { statusCode: r.status, headers: {}, body: { json: async () => JSON.parse(r.body), text: async () => r.body } };
}
