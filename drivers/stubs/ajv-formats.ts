export default function addFormats(): void {}
