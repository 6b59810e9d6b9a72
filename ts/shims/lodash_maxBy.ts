import { maxBy } from './lodash'; export default maxBy;
