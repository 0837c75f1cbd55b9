// middy with the middleware that tells the queue which records of a batch failed
export default function middy(f: any): any {
  const after: any[] = [];
  const h: any = async (event: any, context?: any) => { const request: any = { event, context, response: await f(event, context) }; for (const m of after) await m(request); return request.response; };
  h.use = (m: any) => { for (const x of [m].flat()) if (x?.after) after.push(x.after); return h; };
  h.handler = () => h;
  return h;
}
