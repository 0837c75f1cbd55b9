let n = 0;
export const v4 = (): string => `00000000-0000-4000-8000-${String(++n).padStart(12, "0")}`;
