export default () => ({});
