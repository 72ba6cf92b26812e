export default async function first(source) {
  for await (const v of source) return v
  return undefined
}
