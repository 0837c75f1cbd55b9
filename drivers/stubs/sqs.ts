// stands in for the queue service
export const queue: { sent: any[]; fail: boolean } = { sent: [], fail: false };
export class SendMessageCommand { constructor(readonly input: any) {} }
export class SQS {
  sendMessage(m: any): Promise<unknown> { if (queue.fail) return Promise.reject(new Error("no queue")); queue.sent.push(m); return Promise.resolve({ MessageId: "1" }); }
  send(c: SendMessageCommand): Promise<unknown> { return this.sendMessage(c.input); }
}
export class SQSClient extends SQS {}
