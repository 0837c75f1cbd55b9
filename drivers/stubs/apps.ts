// stands in for the secrets manager, answering at once with what the driver laid out
export const secrets: { value: any; fail?: string } = { value: {} };
export class GetSecretValueCommand { constructor(readonly input: { SecretId: string }) {} }
export class SecretsManager {
  getSecretValue(_input: { SecretId: string }): Promise<unknown> { return secrets.fail ? Promise.reject(new Error(secrets.fail)) : Promise.resolve({ SecretString: JSON.stringify(secrets.value) }); }
  send(c: GetSecretValueCommand): Promise<unknown> { return this.getSecretValue(c.input); }
}
export class SecretsManagerClient extends SecretsManager {}
