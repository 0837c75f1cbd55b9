// stands in for the AWS SDK: requests wait until the driver answers them
export interface Pending { id: string; region?: string; resolve: (v: unknown) => void; reject: (e: unknown) => void }
export const requests: Pending[] = [];
export let total = { n: 0 };
export class GetSecretValueCommand { constructor(readonly input: { SecretId: string }) {} }
export class SecretsManager {
  constructor(readonly config?: { region?: string }) {}
  getSecretValue(input: { SecretId: string }): Promise<unknown> {
    total.n++;
    return new Promise((resolve, reject) => { requests.push({ id: input.SecretId, region: this.config?.region, resolve, reject }); });
  }
  send(c: GetSecretValueCommand): Promise<unknown> { return this.getSecretValue(c.input); }
}
export class SecretsManagerClient extends SecretsManager {}
