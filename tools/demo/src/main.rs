mod common;
use common::*;

#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    install(&world, EMAIL, 3600, |_, _, _| async { None });
    let key = cloud_storage_signature::SigningKey::bound_token();
    let u = SignedUrl::read(&url(&key).await.unwrap_or_else(|e| fail(e)));
    check(u.account() == EMAIL, "account");
    let l = build(options(&local_key(), false)).await.unwrap();
    check(SignedUrl::read(&l).verifies("GET", &[]), "signature");
    let f = form(&key).await.unwrap();
    check(permits(&policy(&f), &f, 3), "policy");
}
