// stands in for the AWS SDK: knows the values of the keys of the gateway
export class GetApiKeyCommand { constructor(readonly input: { apiKey: string; includeValue?: boolean }) {} }
export class APIGatewayClient {
  async send(c: GetApiKeyCommand): Promise<unknown> {
    if (!/^k\d$/.test(c.input.apiKey)) throw new Error("NotFoundException");
    return { id: c.input.apiKey, name: "a name", ...(c.input.includeValue ? { value: `value of ${c.input.apiKey}` } : {}) };
  }
}
