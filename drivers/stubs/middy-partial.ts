export default function sqsPartialBatchFailureMiddleware(): any {
  return { after: (r: any) => { r.response = { batchItemFailures: r.event.Records.filter((_: any, i: number) => r.response[i].status === "rejected").map((x: any) => ({ itemIdentifier: x.messageId })) }; } };
}
