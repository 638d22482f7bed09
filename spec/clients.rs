//! What every request to the upstream service does.
use juno::{
    clients::juno_core::{GetExchangeInfo, ListCandles, MapAssetPrices},
    Candle, ExchangeInfo, Interval,
};
use reqwest::{Response, StatusCode, Url};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::HashMap;

struct Client {
    url: String,
    client: reqwest::Client,
}

enum Error {
    Request(reqwest::Error),
    Api { status: StatusCode, url: Url, message: String },
}

impl From<reqwest::Error> for Error {
    fn from(e: reqwest::Error) -> Self {
        Error::Request(e)
    }
}

#[derive(Deserialize)]
struct ApiError {
    message: String,
}

/// The body of a response may be used only if its status is no error.
async fn spec_error_for_juno_status(response: Response) -> Result<Response, Error> {
    let status = response.status();
    if status.is_client_error() {
        let url = response.url().clone();
        let error: ApiError = response.json().await?;
        return Err(Error::Api { status, url, message: error.message });
    }
    Ok(response.error_for_status()?)
}

async fn request<T: Serialize, R: DeserializeOwned>(client: &reqwest::Client, url: String, body: &T) -> Result<R, Error> {
    let response = client.post(url).json(body).send().await?;
    Ok(spec_error_for_juno_status(response).await?.json().await?)
}

async fn spec_get_exchange_info(client: &Client, body: GetExchangeInfo<'_>) -> Result<ExchangeInfo, Error> {
    request(&client.client, format!("{}/exchange_info", client.url), &body).await
}

async fn spec_list_candles(client: &Client, body: ListCandles<'_>) -> Result<Vec<Candle>, Error> {
    request(&client.client, format!("{}/candles", client.url), &body).await
}

async fn spec_list_candles_fill_missing_with_none(
    client: &Client,
    body: ListCandles<'_>,
) -> Result<Vec<Option<Candle>>, Error> {
    request(&client.client, format!("{}/candles_fill_missing_with_none", client.url), &body).await
}

async fn spec_list_candle_intervals(client: &Client, body: GetExchangeInfo<'_>) -> Result<Vec<Interval>, Error> {
    request(&reqwest::Client::new(), format!("{}/candle_intervals", client.url), &body).await
}

async fn spec_map_asset_prices(client: &Client, body: MapAssetPrices<'_>) -> Result<HashMap<String, Vec<f64>>, Error> {
    request(&client.client, format!("{}/prices", client.url), &body).await
}
