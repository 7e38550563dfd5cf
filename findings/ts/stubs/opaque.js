export const yamux = () => () => ({})
export const defaultLogger = () => ({ forComponent: () => Object.assign(() => {}, { error() {}, trace() {}, enabled: false }) })
export default function () { throw new Error('stand-in') }
