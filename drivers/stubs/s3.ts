// the S3 client at its interface
export const sent: any[] = [];
export const s3State = { answer: "ok" as string, handler: undefined as undefined | ((cmd: any) => Promise<any>) };
class Cmd { constructor(readonly input: any) {} }
export class PutObjectCommand extends Cmd {}
export class GetObjectCommand extends Cmd {}
export class CopyObjectCommand extends Cmd {}
export class DeleteObjectCommand extends Cmd {}
export class HeadObjectCommand extends Cmd {}
export class ListObjectsV2Command extends Cmd {}
export const ObjectCannedACL = { private: "private", public_read: "public-read" };
export class S3Client {
  constructor(readonly config?: any) {}
  async send(cmd: any): Promise<any> {
    sent.push(cmd);
    if (s3State.handler) return s3State.handler(cmd);
    if (s3State.answer !== "ok") throw new Error("s3 down");
    return {};
  }
  destroy(): void {}
}
export class S3 extends S3Client {}
