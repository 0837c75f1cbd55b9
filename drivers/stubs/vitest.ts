export const expect = () => { throw new Error("not here"); };
