// the client that passes big messages through a bucket, at its interface
export const line: { queue: any[]; store: Map<string, string>; down: boolean; storeDown: boolean; n: number } = { queue: [], store: new Map(), down: false, storeDown: false, n: 0 };
export class ExtendedSqsClient {
  constructor(readonly o?: any) {}
  async sendMessage(m: any): Promise<any> {
    if (line.down) throw new Error("no queue");
    const record: any = { messageId: `m${++line.n}`, receiptHandle: `r${line.n}`, md5OfBody: "x", body: m.MessageBody, messageAttributes: { other: { stringValue: "1", dataType: "Number" } }, url: m.QueueUrl };
    if (Buffer.byteLength(m.MessageBody) > 256 * 1024) {
      const key = `(${this.o?.bucketName})${line.n}`;
      line.store.set(key, m.MessageBody);
      record.body = key; record.messageAttributes.S3MessageBodyKey = { stringValue: key, dataType: "String" };
    }
    line.queue.push(record);
    return { MessageId: record.messageId };
  }
  async _processReceive(r: any): Promise<any> {
    const Messages = await Promise.all((r.Messages ?? []).map(async (m: any) => {
      const key = m.MessageAttributes?.S3MessageBodyKey?.StringValue;
      if (!key) return m;
      if (line.storeDown || !line.store.has(key)) throw new Error("no such object");
      return { ...m, Body: line.store.get(key) };
    }));
    return { ...r, Messages };
  }
}
export default ExtendedSqsClient;
