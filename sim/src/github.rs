//! The simulated hosting API.
use crate::hist::{self, rec, Ev};
use crate::scen::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

pub const TEST_KEY: &str = include_str!("test_key.pem");

thread_local! {
    static COUNT: RefCell<usize> = const { RefCell::new(0) };
}

/// What GitHub sends for one page by default.
const PAGE: usize = 30;
const COMMIT_PAGE: usize = 300;

pub fn install(_sc: &Scenario, g: GithubSpec) {
    COUNT.with(|c| *c.borrow_mut() = 0);
    octocrate_core::sim::set_handler(Some(Rc::new(move |req| {
        let n = COUNT.with(|c| {
            let mut c = c.borrow_mut();
            *c += 1;
            *c - 1
        });
        let fail = g.fails.get(n).copied().flatten();
        let url = req.url.clone();
        let auth = req.authorization.is_some();
        hist::rec(Ev::Api { n, url: url.clone(), auth, outcome: "request".into() });
        let delay = g.delay_ms;
        let files = g.files.clone();
        Box::pin(async move {
            if delay > 0 {
                tokio::time::sleep(Duration::from_millis(delay)).await;
            }
            if let Some(status) = fail {
                simcore::fault(match status {
                    0 => "api-transport-error",
                    1 => "api-malformed-body",
                    _ => "api-error-status",
                });
                rec(Ev::Api { n, url, auth, outcome: format!("fail {}", status) });
                return match status {
                    0 => Err("connection reset by peer".to_string()),
                    1 => Ok((200, "{\"unexpected\": tr".to_string(), vec![])),
                    s => Ok((s, json!({"message": "simulated failure"}).to_string(), vec![])),
                };
            }
            let (status, body) = answer(&url, &files);
            rec(Ev::Api { n, url, auth, outcome: format!("{}", status) });
            Ok((status, body.to_string(), vec![]))
        })
    })));
}

fn query(url: &str, key: &str) -> Option<usize> {
    let (_, q) = url.split_once('?')?;
    q.split('&').find_map(|kv| kv.strip_prefix(&format!("{}=", key))).and_then(|v| v.parse().ok())
}
fn page(url: &str, all: &[String], default: usize, max: usize) -> Vec<Value> {
    let per = query(url, "per_page").map(|p| p.clamp(1, max)).unwrap_or(default);
    let p = query(url, "page").unwrap_or(1).max(1);
    all.iter().skip((p - 1) * per).take(per).map(|f| diff_entry(f)).collect()
}
fn diff_entry(f: &str) -> Value {
    json!({
        "additions": 1, "blob_url": "https://x/b", "changes": 1, "contents_url": "https://x/c", "deletions": 0,
        "filename": f, "raw_url": "https://x/r", "sha": "1234", "status": "modified"
    })
}

pub fn answer(url: &str, files: &[(String, Vec<String>)]) -> (u16, Value) {
    let path = url.split_once("api.github.com").map(|x| x.1).unwrap_or(url);
    let path = path.split('?').next().unwrap_or("");
    let seg: Vec<&str> = path.trim_matches('/').split('/').collect();
    let of = |o: &str, r: &str| -> Option<Vec<String>> {
        let k = format!("{}/{}", o, r);
        files.iter().find(|(n, _)| *n == k).map(|(_, f)| f.clone())
    };
    match seg.as_slice() {
        ["repos", o, r, "commits", sha] => match of(o, r) {
            Some(f) => (
                200,
                json!({
                    "url": "https://x", "sha": sha, "node_id": "n", "html_url": "https://x", "comments_url": "https://x",
                    "commit": {"url": "https://x", "author": null, "committer": null, "message": "m", "comment_count": 0,
                        "tree": {"sha": "t", "url": "https://x"}},
                    "author": null, "committer": null, "parents": [],
                    "files": page(url, &f, COMMIT_PAGE, 100),
                }),
            ),
            None => (404, json!({"message": "Not Found"})),
        },
        ["repos", o, r, "pulls", _n, "files"] => match of(o, r) {
            Some(f) => (200, Value::Array(page(url, &f, PAGE, 100))),
            None => (404, json!({"message": "Not Found"})),
        },
        ["repos", _o, _r, "installation"] => (200, installation()),
        ["app", "installations", _, "access_tokens"] => (
            201,
            json!({"token": "ghs_simulated", "expires_at": "2030-01-01T00:00:00Z", "permissions": {}, "repository_selection": "all"}),
        ),
        _ => (404, json!({"message": "Not Found"})),
    }
}
fn installation() -> Value {
    json!({
        "id": 77, "account": {
            "login": "acme", "id": 1, "node_id": "n", "avatar_url": "https://x", "gravatar_id": "", "url": "https://x",
            "html_url": "https://x", "followers_url": "https://x", "following_url": "https://x", "gists_url": "https://x",
            "starred_url": "https://x", "subscriptions_url": "https://x", "organizations_url": "https://x",
            "repos_url": "https://x", "events_url": "https://x", "received_events_url": "https://x", "type": "User",
            "site_admin": false
        },
        "access_tokens_url": "https://x", "repositories_url": "https://x", "html_url": "https://x", "app_id": 4711,
        "target_id": 1, "target_type": "User", "permissions": {}, "events": [], "created_at": "2024-01-01T00:00:00Z",
        "updated_at": "2024-01-01T00:00:00Z", "single_file_name": null, "repository_selection": "all", "app_slug": "sim",
        "suspended_at": null, "suspended_by": null
    })
}
