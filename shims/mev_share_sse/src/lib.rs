//! In-process stand-in for the event client: records the endpoint and keeps the decoded items of
//! the response body ("data: <json>" lines).
#[derive(Debug, Clone, Default)]
pub struct EventClient(reqwest::Client);

pub mod client {
    #[derive(Debug)]
    pub struct EventStream<T> {
        pub endpoint: String,
        pub items: Vec<Result<T, String>>,
    }
}

impl EventClient {
    pub fn new(c: reqwest::Client) -> Self {
        Self(c)
    }
    pub async fn subscribe<T: serde::de::DeserializeOwned>(
        &self,
        endpoint: &str,
    ) -> Result<client::EventStream<T>, reqwest::Error> {
        let url = reqwest::Url::parse(endpoint).map_err(|e| reqwest::Error::Builder(e.to_string()))?;
        let r = self.0.get(url).header("accept", "text/event-stream").send().await?;
        let items = r
            .text()
            .await?
            .lines()
            .filter_map(|l| l.strip_prefix("data: "))
            .map(|d| serde_json::from_str(d).map_err(|e| e.to_string()))
            .collect();
        Ok(client::EventStream { endpoint: endpoint.to_string(), items })
    }
}
