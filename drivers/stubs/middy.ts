// middy without its middlewares' effects: the handler itself
export default function middy(f: any): any { const h: any = (...a: any[]) => f(...a); h.use = () => h; h.handler = () => h; return h; }
