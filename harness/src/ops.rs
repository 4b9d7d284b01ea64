//! The same operations by distinct names, for files that use both the sync and the async traits.
use butane::db::{ConnectionMethods, ConnectionMethodsAsync};
use butane::query::{Query, QueryOpsAsync, QueryOpsSync};
use butane::{DataObject, DataObjectOpsAsync, DataObjectOpsSync, DataResult, ForeignKey, ForeignKeyOpsAsync, ForeignKeyOpsSync, Many, ManyOpsAsync, ManyOpsSync, Result, ToSql};

pub fn ssave<M: DataObject>(m: &mut M, c: &impl ConnectionMethods) -> Result<()> {
    DataObjectOpsSync::save(m, c)
}
pub fn sdel<M: DataObject>(m: &M, c: &impl ConnectionMethods) -> Result<()> {
    DataObjectOpsSync::delete(m, c)
}
pub fn sget<M: DataObject>(c: &impl ConnectionMethods, k: impl ToSql) -> Result<M> {
    <M as DataObjectOpsSync<M>>::get(c, k)
}
pub fn stry<M: DataObject>(c: &impl ConnectionMethods, k: impl ToSql) -> Result<Option<M>> {
    <M as DataObjectOpsSync<M>>::try_get(c, k)
}
pub fn sload<M: DataResult>(q: Query<M>, c: &impl ConnectionMethods) -> Result<Vec<M>> {
    QueryOpsSync::load(q, c)
}
pub fn sfirst<M: DataResult>(q: Query<M>, c: &impl ConnectionMethods) -> Result<Option<M>> {
    QueryOpsSync::load_first(q, c)
}
pub fn sqdel<M: DataResult>(q: Query<M>, c: &impl ConnectionMethods) -> Result<usize> {
    QueryOpsSync::delete(q, c)
}
pub fn sfk<'a, M: DataObject + Send>(f: &'a ForeignKey<M>, c: &impl ConnectionMethods) -> Result<&'a M> {
    ForeignKeyOpsSync::load(f, c)
}
pub fn smany<'a, M: DataObject + 'a>(f: &'a Many<M>, c: &impl ConnectionMethods) -> Result<Vec<&'a M>> {
    Ok(ManyOpsSync::load(f, c)?.collect())
}
pub async fn asave<M: DataObject>(m: &mut M, c: &impl ConnectionMethodsAsync) -> Result<()> {
    DataObjectOpsAsync::save(m, c).await
}
pub async fn adel<M: DataObject>(m: &M, c: &impl ConnectionMethodsAsync) -> Result<()> {
    DataObjectOpsAsync::delete(m, c).await
}
pub async fn aget<M: DataObject>(c: &impl ConnectionMethodsAsync, k: impl ToSql) -> Result<M> {
    <M as DataObjectOpsAsync<M>>::get(c, k).await
}
pub async fn atry<M: DataObject>(c: &impl ConnectionMethodsAsync, k: impl ToSql) -> Result<Option<M>> {
    <M as DataObjectOpsAsync<M>>::try_get(c, k).await
}
pub async fn aload<M: DataResult>(q: Query<M>, c: &impl ConnectionMethodsAsync) -> Result<Vec<M>> {
    QueryOpsAsync::load(q, c).await
}
pub async fn afirst<M: DataResult>(q: Query<M>, c: &impl ConnectionMethodsAsync) -> Result<Option<M>> {
    QueryOpsAsync::load_first(q, c).await
}
pub async fn aqdel<M: DataResult>(q: Query<M>, c: &impl ConnectionMethodsAsync) -> Result<usize> {
    QueryOpsAsync::delete(q, c).await
}
pub async fn afk<'a, M: DataObject + Send>(f: &'a ForeignKey<M>, c: &impl ConnectionMethodsAsync) -> Result<&'a M> {
    ForeignKeyOpsAsync::load(f, c).await
}
pub async fn amany<'a, M: DataObject + 'a>(f: &'a Many<M>, c: &impl ConnectionMethodsAsync) -> Result<Vec<&'a M>> {
    Ok(ManyOpsAsync::load(f, c).await?.collect())
}
