const nop = () => {}
export function defaultLogger() {
  return { forComponent: () => Object.assign(() => {}, { error: nop, trace: nop, enabled: false }) }
}
