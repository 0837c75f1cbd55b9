// the secret store as the edge handlers see it
export class GetSecretValueCommand { constructor(readonly input: unknown) {} }
export class SecretsManager {
  getSecretValue(_i: unknown): Promise<unknown> { return Promise.resolve({ SecretString: JSON.stringify({ "tms-history.snowflakeApikey": "snow-key", "tms-history.s3DomainTmsRawOngoing": "ongoing.s3", "tms-history.s3DomainTmsRawHistory": "history.s3", "tms-history.snowflakeDomain": "snow.flake" }) }); }
  send(c: any): Promise<unknown> { return this.getSecretValue(c.input); }
}
export class SecretsManagerClient extends SecretsManager {}
